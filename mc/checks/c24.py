"""C24: converters of raw response data (rsr_convert_scripts)."""
import contextlib
import importlib.util
import io
import logging
import os
import sys
import types
import warnings

import numpy as np

from mc import world as w
from mc.core import Prune, check
from mc.env import REPO


def script(name):
    stub = types.ModuleType("pkg_resources")
    stub.resource_filename = lambda pkg, path: os.path.join(REPO, pkg, path)
    sys.modules.setdefault("pkg_resources", stub)
    spec = importlib.util.spec_from_file_location("raw_" + name, os.path.join(REPO, "rsr_convert_scripts", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    if not hasattr(mod, "LOG"):
        mod.LOG = logging.getLogger("raw_" + name)        # some scripts make it only when run as programs
    return mod


def chans(first, last, fmt="ch%d"):
    return [fmt % num for num in range(first, last + 1)]


SHAPE = {"width": 0.25}


def curve(pos, size, top=1.0, det=0):
    """Response of the band number *pos*: increasing wavelengths in micrometres, exact in the decimals written."""
    wvl = np.round(0.4 + 0.55 * pos + 0.003 * (pos % 3) + 0.25 * (np.arange(size) + 0.02 * np.sin(np.arange(size) + pos + det))
                   / size, 5)
    narrow = SHAPE["width"] < 0.01          # nearly all samples close to zero, the peak far from the middle
    resp = np.round(np.exp(-((np.arange(size) - (0.8 if narrow else 0.45) * size - 0.1 * det) / (SHAPE["width"] * size)) ** 2)
                    * (1 - 0.002 * pos), 5)
    resp[int(0.8 * size) if narrow else size // 2 - 1] = 1.0
    if SHAPE["width"] < 0.1:
        resp[size // 2 + 1] = 0.0           # a notch
        resp[0], resp[size - 1] = 0.00531, 0.00172
    return wvl, resp * top


# ------------------------------------------------------------------------------------------- writers of raw files
def text(path, cols, header=0, sep="   ", comment="Wavelength response x"):
    with open(path, "w") as out:
        out.writelines(comment + "\n" for _ in range(header))
        for row in zip(*cols):
            out.write(sep.join(("%.10g" % val) if not isinstance(val, str) else val for val in row) + "\n")


class Raw:
    """Raw data of one platform: writes the files and tells the configuration and the expected responses."""

    section = None          # key of the configuration section
    multi = None            # detectors given to the converter

    def __init__(self, root, platform, bands, size, top):
        self.root, self.platform, self.bands, self.size, self.top = root, platform, bands, size, top
        self.want = {b: {"det-1": self.data(pos, b)} for pos, b in enumerate(bands)}

    def data(self, pos, band):
        return curve(pos, self.size)

    def write(self):
        """One text file per band."""
        conf = {"path": self.root}
        for band in self.bands:
            conf[band] = "raw_%s_%s.txt" % (self.platform, band)
            self.file(os.path.join(self.root, conf[band]), band, *self.want[band]["det-1"])
        return conf

    def file(self, path, band, wvl, resp):
        raise NotImplementedError

    def victim(self, conf, band):
        """The file with the raw data of a band."""
        if band in conf:
            return os.path.join(self.root, conf[band])
        return os.path.join(conf["path"], conf["filename"]) if "filename" in conf else conf["path"]

    def convert(self, mod, cls):
        from pyspectral import utils
        utils.convert2hdf5(getattr(mod, cls), self.platform, self.asked, **({"detectors": self.multi} if self.multi else {}))


    def cut(self):
        """Samples of at most 0.001 are left out by some converters."""
        for band in self.want:
            wvl, resp = self.want[band]["det-1"]
            self.want[band]["det-1"] = wvl[resp > 0.001], resp[resp > 0.001]


class Abi(Raw):
    def file(self, path, band, wvl, resp):
        text(path, (wvl, 1e4 / wvl, resp), 2)


class Micro1(Raw):
    def file(self, path, band, wvl, resp):
        text(path, (wvl, resp), 1)


class Avhrr(Raw):
    def file(self, path, band, wvl, resp):
        unit = 1000 if self.platform in ("TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10") else 1
        text(path, (wvl * unit, resp), 1)


class Nano(Raw):
    def file(self, path, band, wvl, resp):
        text(path, (wvl * 1000, resp), 0)


class Nano1(Raw):
    def file(self, path, band, wvl, resp):
        text(path, (wvl * 1000, resp), 1)


class Wavenumber(Raw):
    def file(self, path, band, wvl, resp):
        text(path, (1e4 / wvl[::-1], resp[::-1]), 4)


class Fengyun(Raw):
    """Nanometres or micrometres by band, fractions or percent, tails cut."""

    def file(self, path, band, wvl, resp):
        micro = {"FY-4A": chans(4, 14), "FY-4B": chans(7, 15)}[self.platform]
        if type(self) is Ghi:
            micro = ["ch7"]
        text(path, (wvl * (1 if band in micro else 1000), resp * self.top), 1, "\t")

    def convert(self, mod, cls):
        super().convert(mod, cls)
        self.cut()


class Agri(Fengyun):
    pass


class Ghi(Fengyun):
    pass


class Mersi1(Raw):
    def data(self, pos, band):
        wvl, resp = curve(pos, self.size)
        return wvl - wvl[0] + 0.4 + 0.01 * (pos % 7), resp

    def write(self):
        if self.platform != "FY-3B":
            return super().write()
        conf = {"path": self.root}
        wvl = curve(0, self.size)[0]
        for names, fname in ((chans(1, 4) + chans(8, 20), "B1-4_B8-20.txt"), (chans(6, 7), "B6-7.txt")):
            cols = []
            for pos, name in enumerate(names):
                conf[name] = fname
                resp = np.roll(curve(pos, self.size)[1], pos % 3) * (1 - 0.01 * pos)
                cols.append(resp)
                if name in self.want:
                    self.want[name]["det-1"] = wvl, resp
            text(os.path.join(self.root, fname), [wvl * 1000] + cols)
        return conf

    def file(self, path, band, wvl, resp):
        text(path, (wvl * 1000, resp), 0)

    def convert(self, mod, cls):
        super().convert(mod, cls)
        self.cut()


class Cocts(Raw):
    def write(self):
        wvl = curve(3, self.size)[0]
        cols = []
        for pos, name in enumerate(chans(1, 8)):
            resp = np.roll(curve(pos, self.size)[1], pos % 3) * (1 - 0.01 * pos)
            cols.append(resp)
            if name in self.want:
                self.want[name]["det-1"] = wvl, resp
        text(os.path.join(self.root, "all.txt"), [wvl * 1000] + cols)
        return dict({name: "all.txt" for name in chans(1, 8)}, path=self.root)


def sheet(book, name, rows):
    tab = book.create_sheet(name)
    for row in rows:
        tab.append([None if val is None else (val if isinstance(val, str) else float(val)) for val in row])


class Epic(Raw):
    NAMES = {"B317": "T(317.5) %", "B325": "T(325) %", "B340": "T(340) %", "B388": "T(388) %", "B443": "T(443) %",
             "B551": "T(551) %", "B680": "T(680) %", "B688": "T(687.75) %", "B764": "T(764) %", "B780": "T(779.5) %"}

    def data(self, pos, band):
        return curve(pos, self.size + pos % 3)

    def columns(self, scale):
        cols = []
        for pos, band in enumerate(self.NAMES):
            wvl, resp = self.data(pos, band)
            if band in self.want:
                self.want[band]["det-1"] = wvl, resp
            cols += [["Wave"] + list(wvl * 1000), [self.NAMES[band]] + list(resp * scale)]
        rows = max(map(len, cols))
        return list(zip(*[c + [None] * (rows - len(c)) for c in cols]))

    def write(self):
        import openpyxl
        book = openpyxl.Workbook()
        rows = self.columns(100)
        blank = [None] * len(rows[0])
        sheet(book, "Data", [["x"]] * 4 + [rows[0], blank] + rows[1:])
        path = os.path.join(self.root, "epic.xlsx")
        book.save(path)
        return {"path": path}


class Goci2(Epic):
    NAMES = {"L%d" % nm: "B%d (%d nm)" % (num + 1, nm) for num, nm in
             enumerate((380, 412, 443, 490, 510, 555, 620, 660, 680, 709, 745, 865))}

    def write(self):
        path = os.path.join(self.root, "goci2.csv")
        with open(path, "w") as out:
            for row in self.columns(1):
                out.write(",".join("" if val is None else val if isinstance(val, str) else "%.10g" % val for val in row) + "\n")
        return {"path": path}


class Msi(Raw):
    BANDS = ["B%02d" % num for num in range(1, 9)] + ["B8A"] + ["B%02d" % num for num in range(9, 13)]

    def write(self):
        import openpyxl
        path = os.path.join(self.root, "msi.xlsx")
        book = openpyxl.Workbook()
        wvl = np.arange(400.0, 720.0 + self.size)
        for short in ("S2A", "S2B", "S2C"):
            cols = [["SR_WL"] + list(wvl)]
            for pos, band in enumerate(self.BANDS):
                resp = np.zeros(wvl.size)
                start = 10 + 20 * pos + {"S2A": 0, "S2B": 3, "S2C": 5}[short]
                resp[start:start + self.size] = curve(pos, self.size)[1] * 0.9 + 0.1
                cols.append(["%s_SR_AV_%s" % (short, band.replace("B0", "B"))] + list(resp))
                if short[-1] == self.platform[-1] and band in self.want:
                    part = slice(start - 2, start + self.size + 2)
                    self.want[band]["det-1"] = wvl[part] / 1000, resp[part]
            sheet(book, "Spectral Responses (%s)" % short, list(zip(*cols)))
        book.save(path)
        return {"path": path}


class Msugsa(Raw):
    multi = ["det-1", "det-2"]

    def write(self):
        import openpyxl
        path = os.path.join(self.root, "msugsa.xlsx")
        book = openpyxl.Workbook()
        for det in (1, 2):
            for kind, names in (("vis", chans(1, 3)), ("IR", chans(4, 10))):
                wvl = curve(3, self.size)[0]
                cols = [["wvl"] + list(wvl)]
                for name in names:
                    pos = int(name[2:])
                    resp = np.roll(curve(pos, self.size, 1, det)[1], pos % 3) * (1 - 0.01 * pos - 0.005 * det)
                    cols.append([name] + list(resp))
                    if name in self.want:
                        self.want[name]["det-%d" % det] = wvl, resp
                sheet(book, "MSU-%d %s" % (det, kind), [["a"], ["b"]] + list(zip(*cols)))
        book.save(path)
        return {"path": path}


class Fci(Raw):
    BANDS = ["VIS0.4", "VIS0.5", "VIS0.6_HR", "VIS0.8", "VIS0.9", "NIR1.3", "NIR1.6", "NIR2.2_HR", "IR3.8_HR", "WV6.3", "WV7.3",
             "IR8.7", "IR9.7", "IR10.5_HR", "IR12.3", "IR13.3"]

    def write(self):
        from netCDF4 import Dataset
        names = list(self.BANDS)[::-1]
        with Dataset(os.path.join(self.root, "fci.nc"), "w") as ncf:
            ncf.createDimension("n", self.size)
            ncf.createDimension("c", len(names))
            wvl = ncf.createVariable("wavelength", "f8", ("n", "c"))
            resp = ncf.createVariable("srf", "f8", ("n", "c"))
            ids = ncf.createVariable("channel_id", str, ("c",))
            for pos, name in enumerate(names):
                one, two = curve(pos, self.size)
                wvl[:, pos], resp[:, pos], ids[pos] = one * 1e-6, two, name
                if name in self.want:
                    self.want[name]["det-1"] = one, two
        return {"path": self.root, "filename": "fci.nc"}


class SlstrNc(Raw):
    def file(self, path, band, wvl, resp):
        from netCDF4 import Dataset
        with Dataset(path, "w") as ncf:
            ncf.createDimension("n", wvl.size)
            for name, val in (("wavelength", wvl), ("response", resp)):
                ncf.createVariable(name, "f8", ("n",))[:] = val


class Olci(Raw):
    def write(self):
        from netCDF4 import Dataset
        path = os.path.join(self.root, "olci.nc4")
        names = chans(1, 21, "Oa%02d")
        with Dataset(path, "w") as ncf:
            ncf.createDimension("n", self.size)
            ncf.createDimension("c", len(names))
            resp = ncf.createVariable("mean_spectral_response_function", "f8", ("c", "n"))
            wvl = ncf.createVariable("mean_spectral_response_function_wavelength", "f8", ("c", "n"))
            for pos, name in enumerate(names):
                one, two = curve(pos, self.size)
                wvl[pos], resp[pos] = one * 1000, two
                if name in self.want:
                    self.want[name]["det-1"] = one, two
        return {"path": path}


class Metimage(Raw):
    NANO = [443, 555, 668, 752, 763, 865, 914, 1240, 1375, 1630, 2250, 3740, 3959, 4050, 6725, 7325, 8540, 10690, 12020, 13345]
    BANDS = ["vii-%d" % num for num in (4, 8, 12, 15, 16, 17, 20, 22, 23, 24, 25, 26, 28, 30, 33, 34, 35, 37, 39, 40)]

    def write(self):
        from netCDF4 import Dataset
        path = os.path.join(self.root, "metimage.nc")
        with Dataset(path, "w") as ncf:
            groups = {name: ncf.createGroup(name) for name in ("VISNIR", "SMWIR", "LVWIR")}
            for pos, (nm, name) in enumerate(zip(self.NANO, self.BANDS)):
                one, two = curve(pos, self.size)
                grp = groups["LVWIR" if nm > 6000 else "SMWIR" if nm > 1000 else "VISNIR"]
                grp.createDimension("n%d" % nm, self.size)
                grp.createDimension("two%d" % nm, 2)
                var = grp.createVariable("ISRF_cw_%d" % nm, "f8", ("n%d" % nm, "two%d" % nm))
                var[:, 0], var[:, 1] = one, two * 3.0
                self.want[name] = {"det-1": (one, two)}
        return {"path": path}

    def convert(self, mod, cls):
        mod.generate_metimage_file(self.platform)


class Viirs(Raw):
    BANDS = chans(1, 16, "M%d") + chans(1, 5, "I%d") + ["DNB"]
    sections = {"section1": chans(1, 7, "M%d"), "section2": chans(8, 16, "M%d"), "section3": chans(1, 5, "I%d") + ["DNB"]}
    dets = 3

    def write(self):
        conf = {"rootdir": self.root}
        for name, bands in self.sections.items():
            conf[name] = {"bands": bands, "filename": "%s_{bandname}.txt" % name}
        for pos, band in enumerate(self.BANDS):
            rows = []
            shared = pos % 2 == 0
            count = {"M13": 1, "DNB": 2}.get(band, self.dets)
            for det in range(count):
                wvl, resp = curve(pos, self.size if shared or pos % 3 == 0 or det != 1 + pos % 4 // 2 else self.size + 1, 1,
                                  0 if shared or pos % 4 // 2 and det < 2 else det)
                resp = resp * (1 - 0.01 * det)
                self.want.setdefault(band, {})["det-%d" % (det + 1)] = wvl, resp
                for one, two in zip(wvl, resp):
                    head = [band, str(det + 1), "1", "%.10g" % (one * 1000)]
                    if self.platform == "Suomi-NPP":
                        tail = ["10.0", "0.5", "%.10g" % two, "0", "0"]
                        if self.top != 1.0:
                            tail = ["%.10g" % two]
                    else:
                        tail = ["%.10g" % two, "10.0", "5.0", "0", "0"]
                    rows.append(head + tail)
            name = [key for key, val in self.sections.items() if band in val][0]
            with open(os.path.join(self.root, "%s_%s.txt" % (name, band)), "w") as out:
                out.write("% header line\n" * (1 + pos % 3))
                for row in rows:
                    out.write("  ".join(row) + "\n")
        return conf

    def victim(self, conf, band):
        name = [key for key, val in self.sections.items() if band in val][0]
        return os.path.join(self.root, "%s_%s.txt" % (name, band))

    def convert(self, mod, cls):
        mod.create_viirs_rsr(self.platform)


class Modis(Raw):
    """Nanometres or micrometres by band, several detectors, unsorted, with duplicates and missing values."""

    BANDS = [str(num) for num in range(1, 37)]
    dets = 3

    def path(self, band, other=False):
        num = int(band)
        if self.platform == "EOS-Terra":
            return os.path.join(self.root, "rsr.%d.inb.final" % num)
        return os.path.join(self.root, "%02d.%s.1pct.det" % (num, "tv" if (num in (5, 6, 7) or num >= 20) != other else "amb"))

    def write(self):
        for pos, band in enumerate(self.BANDS):
            nano = self.platform == "EOS-Aqua" or int(band) <= 19 or band == "26"
            rows = ["# a comment\n"]
            kind = pos % 3                  # wavelengths common to all detectors, of different number, or just different
            for det in range(self.dets):
                wvl, resp = curve(pos, self.size + (det == 1) * (kind == 1), 1, det if kind == 1 else 0)
                wvl = np.round(wvl + 0.001 * (det == 1 + pos % 2) * (kind == 2), 5)
                resp = resp * (1 - 0.01 * det)
                if pos % 4 == 1:
                    resp[-2] = -0.00125             # noise
                self.want.setdefault(band, {})["det-%d" % (det + 1)] = wvl, resp
                order = np.roll(np.arange(wvl.size), pos % 4 + det)
                if pos % 2:
                    order = np.r_[order, order[:2]]          # twice the same
                for num, idx in enumerate(order):
                    rows.append("%s %d %.10g %.10g\n" % (band, det + 1, wvl[idx] * (1000 if nano else 1), resp[idx]))
                    if num % 5 == 3:
                        rows.append("%s %d %.10g -99\n" % (band, det + 1, (wvl[idx] + 0.0001) * (1000 if nano else 1)))
            if pos % 5 == 4:
                rows = rows[::-1]
            with open(self.path(band), "w") as out:
                out.writelines(rows)
            if self.platform == "EOS-Aqua":
                with open(self.path(band, True), "w") as out:
                    out.write("%s 1 500.0 0.5\n%s 1 501.0 0.6\n" % (band, band))
        return {"path": self.root}

    def victim(self, conf, band):
        return self.path(band)

    def convert(self, mod, cls):
        mod.convert2hdf5(self.platform)


class Landsat(Raw):
    BANDS = ["B1", "B2", "B3", "B4", "B5", "B6", "B7", "B8", "B9", "B10", "B11"]

    def write(self):
        import openpyxl
        mod = script("oli_tirs_reader")
        book = openpyxl.Workbook()
        for pos, (band, name) in enumerate(mod.OLI_BAND_NAMES.items()):
            wvl, resp = curve(pos, self.size)
            self.want[band] = {"det-1": (wvl, resp)}
            sheet(book, name, [["Wavelength", "BA RSR [watts]", "StDev"]] + [[a * 1000, b, 9.0] for a, b in zip(wvl, resp)])
        book.save(os.path.join(self.root, "oli.xlsx"))
        book = openpyxl.Workbook()
        cols = {}
        for pos, band in enumerate(("B10", "B11")):
            tab, col = ((mod.TIRS_SHEETNAMES_L8, mod.TIRS_BAND_NAMES_L8) if self.platform == "Landsat-8" else
                        (mod.TIRS_SHEETNAMES_L9, mod.TIRS_BAND_NAMES_L9))
            wvl, resp = curve(20, self.size)
            resp = np.roll(resp, pos) * (1 - 0.01 * pos)
            self.want[band] = {"det-1": (wvl, resp)}
            cols.setdefault(tab[band], [["wavelength [um]"] + list(wvl * 1000)]).append([col[band]] + list(resp))
        for name, val in cols.items():
            sheet(book, name, list(zip(*val)))
        book.save(os.path.join(self.root, "tirs.xlsx"))
        for band in self.want:
            wvl, resp = self.want[band]["det-1"]
            self.want[band]["det-1"] = wvl[resp > 0.002], resp[resp > 0.002]
        return {"path": self.root, "oli": "oli.xlsx", "tirs": "tirs.xlsx"}

    def victim(self, conf, band):
        return os.path.join(self.root, conf["tirs" if band in ("B10", "B11") else "oli"])


# -------------------------------------------------------------------------------------------- old spreadsheets
class Sheet:
    def __init__(self, name, rows):
        self.name, self.rows = name, rows
        self.nrows = len(rows)

    def col_values(self, col, start_rowx=0, end_rowx=None):
        return [row[col] if col < len(row) else "" for row in self.rows[start_rowx:end_rowx]]


class Xls(Raw):
    def write(self):
        path = os.path.join(self.root, "book.xls")
        with open(path, "w") as out:
            out.write("replaced by a stand-in")
        return {"path": path, "filename": "book.xls"}

    def sheets(self):
        raise NotImplementedError


class Aatsr(Xls):
    BANDS = ["ir12", "ir11", "ir37", "v16", "v870", "v659", "v555"]

    def data(self, pos, band):
        return curve(pos, 255)

    def sheets(self):
        return [Sheet("intro", [["x"]])] + [
            Sheet(" aatsr_%s " % b, [["h"]] * 3 + [["%.8g  %.8g" % pair] for pair in zip(*self.want[b]["det-1"])])
            for b in self.want]


class Ahi(Xls):
    BANDS = chans(1, 16)

    def data(self, pos, band):
        return curve(pos, 40)

    def sheets(self):
        res = [Sheet("Title", [["x"]])]
        for pos, band in enumerate(self.BANDS):
            wvl, resp = self.want[band]["det-1"]
            res.append(Sheet("Band %d " % (pos + 1), [["h"]] * 5 + [[a, 1e4 / a, b] for a, b in zip(wvl, resp)]))
        return res

    def convert(self, mod, cls):
        mod.convert2hdf5(self.platform)


class Avhrr1(Xls):
    BANDS = chans(1, 4)
    NUMS = {"TIROS-N": 1, "NOAA-6": 2, "NOAA-8": 3, "NOAA-10": 4}

    def sheets(self):
        res = [Sheet("Kleespies Data", [["x"]])]
        for plat, num in self.NUMS.items():
            for pos, band in enumerate(self.BANDS):
                wvl, resp = curve(pos + 5 * num, self.size)
                if (pos, num) == (0, 1):
                    # a wavelength that is a typing error elsewhere
                    wvl = np.round(wvl - wvl[self.size // 2] + 0.64, 5)
                unit, scale = ("nm", 1000) if (pos + num) % 2 else ("\u00c5", 10000)
                rows = [["# %s " % plat], ["# Wavelength (%s)" % unit]] + [[a * scale, b] for a, b in zip(wvl, resp)]
                rows += [["# comment", ""]] * ((pos + num) % 3)
                res.append(Sheet("A10%dC00%d" % (num, pos + 1), rows))
                if plat == self.platform:
                    self.want[band]["det-1"] = wvl, resp
        return res + [Sheet("Summary", [["x"]]), Sheet("more", [["x"]])]

    def convert(self, mod, cls):
        mod.generate_avhrr1_file(mod.AvhrrRSR(), self.platform)


# script, class, kind, {platform: bands}, configuration section, instrument to open
CONVERTERS = [
    ("abi_rsr", "AbiRSR", Abi, {p: chans(1, 16) for p in ("GOES-16", "GOES-17", "GOES-18", "GOES-19")}, "abi", "abi"),
    ("avhrr_rsr", "AvhrrRSR", Avhrr, {"Metop-C": ["ch1", "ch2", "ch3a", "ch3b", "ch4", "ch5"], "NOAA-19": ["ch1", "ch2", "ch3a", "ch3b", "ch4", "ch5"]},
     "avhrr/3", "avhrr/3"),
    ("avhrr_rsr", "AvhrrRSR", Avhrr, {"NOAA-7": chans(1, 5)}, "avhrr/2", "avhrr/2"),
    ("avhrr_rsr", "AvhrrRSR", Avhrr, {p: chans(1, 4) for p in ("TIROS-N", "NOAA-10")}, "avhrr/1", "avhrr/1"),
    ("agri_rsr", "AGRIRSR", Agri, {"FY-4A": chans(1, 14), "FY-4B": chans(1, 15)}, "agri", "agri"),
    ("ghi_rsr", "GHIRSR", Ghi, {"FY-4B": chans(1, 7)}, "ghi", "ghi"),
    ("ami_reader", "AmiRSR", Wavenumber, {"GEO-KOMPSAT-2A": chans(1, 16)}, "ami", "ami"),
    ("cocts_rsr", "COCTS_RSR", Cocts, {"HY-1C": chans(1, 8)}, "cocts", "cocts"),
    ("mersi1_rsr", "Mersi1FY3ABRSR", Mersi1, {"FY-3A": chans(1, 20), "FY-3B": chans(1, 4) + chans(6, 20), "FY-3C": chans(1, 20)},
     "mersi-1", "mersi-1"),
    ("mersi2_rsr", "Mersi2RSR", Nano, {"FY-3D": chans(1, 25)}, "mersi-2", "mersi-2"),
    ("mersi3_rsr", "Mersi3RSR", Nano, {"FY-3F": chans(1, 25)}, "mersi3", "mersi-3"),
    ("mersirm_rsr", "MersiRMRSR", Nano1, {"FY-3G": chans(1, 8)}, "mersi-rm", "mersi-rm"),
    ("virr_rsr", "VirrRSR", Nano, {"FY-3B": chans(1, 10), "FY-3C": ["ch1", "ch2"] + chans(6, 10)}, "virr", "virr"),
    ("msu_gs_reader", "MsugsRSR", Wavenumber, {"Electro-L-N2": chans(1, 10)}, "msu-gs", "msu-gs"),
    ("slstr_rsr_txt", "SlstrTxtRSR", Wavenumber, {"Sentinel-3%s" % x: chans(1, 9) for x in "ABCD"}, "slstr", "slstr"),
    ("slstr_rsr", "SlstrRSR", SlstrNc, {"Sentinel-3A": chans(1, 9), "Sentinel-3B": chans(1, 9)}, "slstr", "slstr"),
    ("olci_rsr", "OlciRSR", Olci, {"Sentinel-3A": chans(1, 21, "Oa%02d"), "Sentinel-3B": chans(1, 21, "Oa%02d")}, "olci", "olci"),
    ("fci_rsr", "FciRSR", Fci, {"Meteosat-12": Fci.BANDS, "MTG-I1": Fci.BANDS}, "fci", "fci"),
    ("epic_reader", "EpicRSR", Epic, {"DSCOVR": list(Epic.NAMES)}, "epic", "epic"),
    ("goci2_rsr", "GOCI2RSR", Goci2, {"GK-2B": list(Goci2.NAMES)}, "goci2", "goci2"),
    ("msi_reader", "MsiRSR", Msi, {"Sentinel-2%s" % x: Msi.BANDS for x in "ABC"}, "msi", "msi"),
    ("msu_gsa_reader", "MsugsaRSR", Msugsa, {"Arctica-M-N1": chans(1, 10)}, "msu-gsa", "msu-gsa"),
    ("metimage_rsr", None, Metimage, {"Metop-SG-A1": Metimage.BANDS}, "metimage", "metimage"),
    ("viirs_rsr", None, Viirs, {p: Viirs.BANDS for p in ("Suomi-NPP", "NOAA-20", "NOAA-21")}, "viirs", "viirs"),
    ("modis_rsr", None, Modis, {p: Modis.BANDS for p in ("EOS-Terra", "EOS-Aqua")}, "modis", "modis"),
    ("oli_tirs_reader", "OliRSR", Landsat, {p: Landsat.BANDS for p in ("Landsat-8", "Landsat-9")}, "oli_tirs", "oli_tirs"),
    ("aatsr_reader", "AatsrRSR", Aatsr, {"Envisat": Aatsr.BANDS}, "aatsr", "aatsr"),
    ("ahi_reader", None, Ahi, {"Himawari-8": Ahi.BANDS, "Himawari-9": Ahi.BANDS}, "ahi", "ahi"),
    ("avhrr1_rsr", None, Avhrr1, {p: Avhrr1.BANDS for p in Avhrr1.NUMS}, "avhrr/1", "avhrr/1"),
]


def run(ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse

    def convert(entry, platform, bands, size, top, damage=None, width=0.25):
        """Convert the raw data in a store of their own and give (what was expected, the store)."""
        import xlrd
        SHAPE["width"] = width
        name, cls, kind, _, section, _ = entry
        root = w.fresh_dir("raw")
        raw = kind(root, platform, entry[3][platform], size, top)
        raw.asked = list(bands)
        conf = raw.write()
        key = section if kind is Avhrr1 else platform + "-" + section
        extra = {key: conf}
        if kind is not Avhrr1:
            # sections of other platforms and instruments, whose data are not there
            for other in list(entry[3]) + [platform[:-1] + end for end in "ABC12"]:
                for inst in (section, section + "x", section[:-1]):
                    extra.setdefault(other + "-" + inst, {k: v if not isinstance(v, str) else v.replace(root, root + "/other") if root in v else "other" + v
                                                          for k, v in conf.items()})
        store = w.Store(extra=extra)
        store.raw_root = root
        store.__enter__()
        store.current()
        orig = xlrd.open_workbook
        orig_err = sys.stderr
        try:
            if isinstance(raw, Xls):
                made = types.SimpleNamespace(sheets=lambda res=raw.sheets(): res)
                xlrd.open_workbook = lambda *args, **kwargs: made
            if damage is not None:
                os.remove(raw.victim(conf, damage))
            sys.stderr = io.StringIO()
            with contextlib.redirect_stdout(io.StringIO()):
                raw.convert(script(name), cls)
        except BaseException:
            release(store)
            raise
        finally:
            sys.stderr = orig_err
            xlrd.open_workbook = orig
        return {b: raw.want[b] for b in bands}, store

    def release(store):
        import shutil
        shutil.rmtree(store.raw_root, ignore_errors=True)
        store.__exit__(None, None, None)

    def body(ch):
        entry = ch.choose("converter", CONVERTERS)
        name, cls, kind, platforms, section, instrument = entry
        platform = ch.choose("platform", list(platforms))
        bands = platforms[platform]
        size = ch.choose("samples", ctx.pick([40, 7], [40, 7, 5, 301]))
        orders = {"all": bands, "reversed": bands[::-1], "last": bands[-1:], "odd": bands[1::2]}
        if ctx.thorough:
            orders.update({b: [b] for b in bands[:-1]})
            orders.update({"%s,%s" % (b, c): [b, c] for b, c in zip(bands, bands[1:] + bands[:1])})
        order = ch.choose("bands", list(orders)) if cls else "all"
        top = ch.choose("scale", [1.0, 100.0]) if issubclass(kind, (Fengyun, Viirs)) else 1.0
        bands = orders[order]
        width = ch.choose("width", [0.25, 0.08]) if size >= 40 else 0.25
        if issubclass(kind, Fengyun) and ch.choose("narrow", [False, True]):
            size, width = 301, 0.003
        want, store = convert(entry, platform, bands, size, top, None, width)
        try:
            rsr = RelativeSpectralResponse(platform, instrument)
            check(sorted(rsr.rsr) == sorted(want) == sorted(rsr.band_names), "bands %s instead of %s", sorted(rsr.rsr), sorted(want))
            check(rsr.platform_name == platform, "platform %r", rsr.platform_name)
            for band in want:
                check(sorted(rsr.rsr[band]) == sorted(want[band]), "detectors of %s: %s instead of %s", band, sorted(rsr.rsr[band]),
                      sorted(want[band]))
                for det, (wvl, resp) in want[band].items():
                    got = rsr.rsr[band][det]
                    one, two = np.asarray(got["wavelength"], "f8"), np.asarray(got["response"], "f8")
                    if kind is Msi:
                        keep = two > 0
                        check(np.count_nonzero(keep) == np.count_nonzero(resp > 0), "%s: %d samples", band, np.count_nonzero(keep))
                        one, two, keep = one[keep], two[keep], resp > 0
                        wvl, resp = wvl[keep], resp[keep]
                    check(w.close(one, wvl, 2e-6), "%s %s: wavelengths %s", band, det, w.worst(one, wvl))
                    check(w.close(two, resp, 3e-6, 1e-7), "%s %s: responses %s", band, det, w.worst(two, resp))
                    center = w.central(wvl, resp)
                    check(abs(got["central_wavelength"] / center - 1) < 1e-4, "%s %s: centre %s instead of %s", band, det,
                          got["central_wavelength"], center)
                    ch.count(wvl.size)
            ch.state(name, platform, order, size, top, width)
        finally:
            release(store)

    ctx.explore("convert", body, workers=8, split=2)

    def missing(ch):
        """Raw data of one band cannot be found: that is never passed over."""
        entry = ch.choose("converter", [e for e in CONVERTERS if not issubclass(e[2], Xls)])
        platform = ch.choose("platform", list(entry[3]))
        bands = entry[3][platform]
        gone = ch.choose("missing", bands if ctx.thorough else [bands[0], bands[len(bands) // 2], bands[-1]])
        try:
            want, store = convert(entry, platform, bands, 7, 1.0, gone)
        except Exception:
            return
        try:
            RelativeSpectralResponse(platform, entry[5])
        except Exception:
            return
        finally:
            release(store)
        check(False, "the raw data of %s are missing, but a file with its responses was made", gone)

    ctx.explore("missing", missing, workers=8, split=2)

    def shipped(ch):
        """The SEVIRI spreadsheet that comes with the package; where it is found."""
        import xlrd
        num = ch.choose("satellite", [8, 9, 10, 11])
        where = ch.choose("configured", ["path", "file name in the package"])
        data = os.path.join(REPO, "pyspectral", "data", "MSG_SEVIRI_Spectral_Response_Characterisation.XLS")
        conf = {"path": data if where == "path" else "/nonexistent/x.xls", "filename": os.path.basename(data)}
        with w.Store(extra={"seviri": conf}) as store:
            store.current()
            sev = script("seviri_rsr")
            sev.generate_seviri_file(sev.Seviri(), "Meteosat-%d" % num)
            rsr = RelativeSpectralResponse("Meteosat-%d" % num, "seviri")
            done = 0
            for tab in xlrd.open_workbook(data).sheets():
                name = tab.name.strip()
                if name in ("Info", "Requirements"):
                    continue
                first, col = ((36, {8: 1, 9: 3, 10: 5, 11: 6}[num]) if name == "HRV" else
                              (12, 2 * (num - 8) + 1) if name.startswith("IR") else (11, num - 7))
                wvl = np.array(tab.col_values(0, first, first + 101), "f8")
                resp = np.array(tab.col_values(col, first, first + 101), "f8")
                got = rsr.rsr[name.replace("IR6", "WV6").replace("IR7", "WV7") if name.replace("IR", "WV") in rsr.rsr else name]["det-1"]
                one, two = np.asarray(got["wavelength"], "f8"), np.asarray(got["response"], "f8")
                # the first sample of the table may be left out
                check(one.size in (100, 101), "%s: %d samples", name, one.size)
                check(w.close(one, wvl[-one.size:], 1e-6) and w.close(two, resp[-one.size:], 1e-5, 1e-8), "%s differs from the table", name)
                center = w.central(wvl[-one.size:], resp[-one.size:])
                check(abs(got["central_wavelength"] / center - 1) < 1e-4, "%s: centre %s", name, got["central_wavelength"])
                done += 1
                ch.count(one.size)
            check(done == 12 and len(rsr.rsr) == 12, "%d tables, %d bands", done, len(rsr.rsr))

    ctx.explore("seviri", shipped, workers=4, split=2)

    def fallback(ch):
        """AVHRR/1: the configured path, or the file of that name in the package."""
        import xlrd
        there = ch.flag("path exists")
        platform = ch.choose("platform", list(Avhrr1.NUMS))
        with w.temp_dir() as tmp:
            raw = Avhrr1(tmp, platform, Avhrr1.BANDS, 9, 1.0)
            conf = raw.write()
            if not there:
                conf["path"] = os.path.join(tmp, "absent.xls")
            opened = []
            made = types.SimpleNamespace(sheets=lambda res=raw.sheets(): res)
            orig = xlrd.open_workbook
            with w.Store(extra={"avhrr/1": conf}) as store:
                store.current()
                xlrd.open_workbook = lambda *args, **kwargs: (opened.extend(args[:1] or kwargs.values()), made)[1]
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        raw.convert(script("avhrr1_rsr"), None)
                finally:
                    xlrd.open_workbook = orig
                want = conf["path"] if there else os.path.join(REPO, "pyspectral", "data", "book.xls")
                check([os.path.normpath(str(p)) for p in opened] == [os.path.normpath(want)], "opened %s instead of %s", opened, want)

    ctx.explore("fallback", fallback)

    def renamed(ch):
        """Files of Aqua and Terra by their former names are copied to the names used now."""
        import runpy
        import h5py
        old = ch.choose("attributes", ["platform", "number", "none"])
        extra = ch.flag("sensor")
        names = {"Aqua": "EOS-Aqua", "Terra": "EOS-Terra"}
        with w.Store() as store:
            store.current()
            want = {}
            for num, name in enumerate(names):
                path = os.path.join(store.rsr_dir, "rsr_modis_%s.h5" % names[name])
                with h5py.File(path, "w") as h5f:
                    h5f.attrs["description"] = "Relative Spectral Responses for MODIS"
                    h5f.attrs["band_names"] = ["1", "20"]
                    if old == "number":
                        h5f.attrs["platform"], h5f.attrs["sat_number"] = "eos", 2 - num
                    elif old == "platform":
                        h5f.attrs["platform_name"] = names[name]
                    if extra:
                        h5f.attrs["sensor"] = "modis"
                    for pos, band in enumerate(("1", "20")):
                        grp = h5f.create_group(band)
                        grp.attrs["number_of_detectors"] = 2
                        for det in (1, 2):
                            wvl, resp = curve(pos + 4 * num, 9, 1, det)
                            dgrp = grp.create_group("det-%d" % det)
                            dgrp.attrs["central_wavelength"] = w.central(wvl, resp)
                            dgrp["response"], dgrp["wavelength"] = resp.astype("f4"), wvl.astype("f4")
                            dgrp["wavelength"].attrs["scale"] = 1e-6
                            want[name, band, "det-%d" % det] = wvl, resp
                with open(path, "rb") as raw:
                    want[name] = raw.read()
            args = sys.argv
            sys.argv = ["modis_old2new_rsr.py", "-d", store.rsr_dir]
            try:
                runpy.run_path(os.path.join(REPO, "rsr_convert_scripts", "modis_old2new_rsr.py"), run_name="__main__")
            finally:
                sys.argv = args
            for name in names:
                with open(os.path.join(store.rsr_dir, "rsr_modis_%s.h5" % names[name]), "rb") as raw:
                    check(raw.read() == want[name], "the former file of %s changed", name)
                for rsr in (RelativeSpectralResponse(name, "modis"),
                            RelativeSpectralResponse(filename=os.path.join(store.rsr_dir, "rsr_modis_%s.h5" % name))):
                    check(rsr.platform_name == name and rsr.instrument == "modis", "%s: %s %s", name, rsr.platform_name, rsr.instrument)
                    check(sorted(rsr.rsr) == ["1", "20"], "%s: bands %s", name, sorted(rsr.rsr))
                    for band in ("1", "20"):
                        for det in ("det-1", "det-2"):
                            got = rsr.rsr[band][det]
                            wvl, resp = want[name, band, det]
                            check(w.close(got["wavelength"], wvl, 1e-6) and w.close(got["response"], resp, 1e-6, 1e-7),
                                  "%s %s %s differs", name, band, det)

    ctx.explore("renamed", renamed)
