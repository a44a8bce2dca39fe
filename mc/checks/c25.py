"""C25: the command-line tools that show responses and wavelength ranges."""
import contextlib
import io
import itertools
import logging
import os
import re
import runpy
import sys
import warnings

import numpy as np

from mc import world as w
from mc.core import check
from mc.env import REPO

# What each file holds: platform, instrument -> {band: centres of the detectors}
FILES = {("Suomi-NPP", "viirs"): {"M5": [0.672], "M10": [1.61, 1.615], "I3": [1.622, 1.63], "M12": [3.7]},
         ("NOAA-20", "viirs"): {"M12": [3.702], "M5": [0.667], "I3": [1.643], "M10": [1.603, 1.607, 1.599]},
         ("GOES-16", "abi"): {"ch5": [1.611], "ch2": [0.637], "ch13": [10.33]},
         ("EOS-Aqua", "modis"): {"6": [1.629, 1.631], "1": [0.646], "20": [3.79]},
         ("NOAA-19", "avhrr/3"): {"ch1": [0.63], "ch3a": [1.608], "ch3b": [3.75], "ch4": [10.8]},
         ("Sentinel-3A", "slstr"): {"ch5": [1.612], "ch2": [0.659], "ch7": [3.743]},
         ("Sentinel-3A", "olci"): {"Oa08": [0.665], "Oa21": [1.02]},
         ("Meteosat-10", "seviri"): {"NIR1.6": [1.64], "VIS0.6": [0.639], "IR3.9": [3.92], "IR10.8": [10.79]},
         ("Himawari-8", "ahi"): {"ch5": [1.607], "ch3": [0.639], "ch7": [3.885], "ch13": [10.41]},
         ("Foo-1", "foo"): {"X": [1.618], "Y": [2.2], "ch20": [3.8]},
         # files of wrong pairs, that no tool should show
         ("GOES-16", "viirs"): {"M5": [0.7], "M10": [1.7]},
         }
KNOWN = {"Suomi-NPP": ["viirs"], "NOAA-20": ["viirs"], "GOES-16": ["abi"], "EOS-Aqua": ["modis"], "NOAA-19": ["avhrr/3"],
         "Sentinel-3A": ["olci", "slstr"], "Meteosat-10": ["seviri"], "Himawari-8": ["ahi"]}
# other spellings of bands
ALIAS = {("Suomi-NPP", "M5"): "M05", ("NOAA-20", "I3"): "I03", ("GOES-16", "ch5"): "C05", ("Meteosat-10", "IR3.9"): "IR_039",
         ("Himawari-8", "ch13"): "B13", ("Sentinel-3A", "ch5"): "S5", ("NOAA-19", "ch3a"): "3a"}


def samples(key, band, num):
    """A response with tails, a notch and levels that no threshold used here meets."""
    center = FILES[key][band][num]
    pos = list(FILES).index(key) + 3 * list(FILES[key]).index(band) + num
    wvl = np.linspace(center - 0.05, center + 0.05, 23 + pos % 3)
    resp = np.exp(-((wvl - center) / (0.02 + 0.001 * (pos % 5))) ** 2) * (1 - 0.01 * (pos % 4)) + 0.0003 * (1 + num)
    resp[3] = 0.0
    resp[13] = 0.0123
    resp[0], resp[-1] = 0.0171, 0.0141
    return wvl.astype("f4").astype("f8"), resp.astype("f4").astype("f8")


def data(key, band):
    return {"det-%d" % (num + 1): samples(key, band, num) for num in range(len(FILES[key][band]))}


def center(key, band):
    return w.central(*data(key, band)["det-1"])


def visible(key, band, det, low):
    wvl, resp = data(key, band)[det]
    keep = resp > low
    return wvl[keep], resp[keep]


class Shown:
    """What was drawn when a figure was saved."""

    def __init__(self, fig, where):
        self.where = os.fspath(where)
        self.axes = fig.get_axes()
        self.lines = []
        for axis in self.axes:
            for line in axis.get_lines():
                pts = np.asarray(line.get_xydata(), "f8")
                self.lines.append((str(line.get_label()), pts[np.isfinite(pts).all(axis=1)]))
        self.titles = [axis.get_title() for axis in self.axes] + [text.get_text() for text in fig.texts]
        self.xlim = [tuple(axis.get_xlim()) for axis in self.axes]
        self.ylim = [tuple(axis.get_ylim()) for axis in self.axes]


def execute(where, args, expect_error=False):
    """Run a tool: (figures saved, text printed)."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from pyspectral import utils
    saved = []
    orig = Figure.savefig, sys.argv, plt.show
    out = io.StringIO()
    Figure.savefig = lambda self, fname, *a, **kw: saved.append(Shown(self, fname))
    plt.show = lambda *a, **kw: None
    sys.argv = [os.path.basename(where)] + [str(arg) for arg in args]
    err = None
    try:
        plt.close("all")
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(os.path.join(REPO, where), run_name="__main__")
    except SystemExit as exc:
        if exc.code not in (0, None):
            err = exc
    except Exception as exc:
        err = exc
    finally:
        Figure.savefig, sys.argv, plt.show = orig
        plt.close("all")
        utils.logging_off()
        logging.getLogger("").setLevel(logging.WARNING)
    if not expect_error:
        check(err is None, "%s %s failed: %r", os.path.basename(where), " ".join(sys.argv and map(str, args)), err)
        return saved, out.getvalue()
    return saved, out.getvalue(), err


def same_lines(got, want, text, labelled):
    """Every expected curve is drawn exactly once and nothing else. want: [(words of the label, wvl, resp)]."""
    left = list(got)
    for words, wvl, resp in want:
        for pos, (label, pts) in enumerate(left):
            if pts.shape == (wvl.size, 2) and np.allclose(pts[:, 0], wvl, 1e-6, 0) and np.allclose(pts[:, 1], resp, 1e-6, 1e-9):
                if labelled:
                    for word in words:
                        check(word in label, "%s: the curve of %s is labelled %r", text, words, label)
                del left[pos]
                break
        else:
            check(False, "%s: no curve of %s (%d samples) among %s", text, words, wvl.size,
                  [(label, len(pts), pts[:1].tolist()) for label, pts in left])
    check(not left, "%s: also drawn: %s", text, [(label, len(pts), pts[:1].tolist()) for label, pts in left])


def run(ctx):
    os.environ["MPLCONFIGDIR"] = os.path.join(ctx.scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)

    def make(_):
        store = w.Store()
        for (platform, inst), bands in FILES.items():
            key = platform, inst
            w.write_rsr(store.rsr_path(inst.replace("/", ""), platform), {b: data(key, b) for b in bands}, platform, inst)
        return store.current()

    stores = w.PerProcess(make)

    @contextlib.contextmanager
    def world():
        store = stores["x"]
        store.__enter__()
        try:
            yield
        finally:
            store._cm.__exit__(None, None, None)

    # ------------------------------------------------------------------------------------------ one band
    def single(ch):
        key = ch.choose("data", [k for k in FILES if k[1] in KNOWN.get(k[0], [k[1]])])
        band = ch.choose("band", list(FILES[key]))
        how = ch.choose("asked by", ctx.pick(["-b", "--wavelength"], ["--bandname", "-b", "--wavelength", "-w"]) + (["alias"] if (key[0], band) in ALIAS else []))
        low = ch.choose("threshold", ctx.pick([None, 0.013, 0.3], [None, 0.0, 0.013, 0.3, 0.6]))
        limits = ch.choose("limits", [None, (0.5, 4.0)])
        title = ch.choose("title", [None, "Some title"]) if limits is None or ctx.thorough else None
        args = [key[0], key[1], "-b" if how == "alias" else how]
        asked = ALIAS[key[0], band] if how == "alias" else band
        near = center(key, band) + ch.choose("offset", [0.004, -0.013, 0.099]) if how in ("-w", "--wavelength") else None
        args.append(asked if near is None else "%.4f" % near)
        args += [] if low is None else ["-r", low]
        args += [] if limits is None else ["-x", *limits]
        args += [] if title is None else ["--title", title]
        text = "plot_rsr.py %s" % " ".join(map(str, args))
        matches = [band] if near is None else [b for b in FILES[key] if abs(center(key, b) - near) < 0.1]
        with world():
            saved, _, err = execute("bin/plot_rsr.py", args, True)
        ch.count(1)
        ch.state(key, band, how, low, limits, near)
        if len(matches) != 1 or matches != [band]:
            check(len(matches) > 1, "bad scenario")
            check(err is not None and not saved, "%s: several bands %s match, but a figure was made", text, matches)
            return
        check(err is None, "%s failed: %r", text, err)
        check(len(saved) == 1, "%s: %d figures", text, len(saved))
        low = 0.01 if low is None else low
        same_lines(saved[0].lines, [((), *visible(key, band, det, low)) for det in data(key, band)], text, False)
        if title:
            check(title in saved[0].titles, "%s: titles %s", text, saved[0].titles)
        if limits:
            check(np.allclose(saved[0].xlim, limits), "%s: limits %s", text, saved[0].xlim)
        folder, name = os.path.split(saved[0].where)
        check(folder in ("", ".", os.getcwd()) and key[0] in name and (band in name or asked in name), "%s: saved as %s", text, saved[0].where)

    ctx.explore("plot", single, workers=8, split=3)

    # ------------------------------------------------------------------------------------- several platforms
    def chosen(platform, sensors):
        """The instrument shown for *platform*."""
        for sensor in sensors:
            if platform in KNOWN and sensor not in KNOWN[platform]:
                continue
            if (platform, sensor) in FILES:
                return platform, sensor
        return None

    orders = [(), ("GOES-16",), ("Suomi-NPP", "NOAA-20"), ("NOAA-20", "Suomi-NPP"), ("Suomi-NPP", "GOES-16"), ("GOES-16", "Suomi-NPP"),
              ("EOS-Aqua", "Suomi-NPP", "NOAA-19"), ("Gone-1",), ("Suomi-NPP", "Gone-1"), ("Gone-1", "Suomi-NPP"), ("Foo-1", "EOS-Aqua"),
              ("Sentinel-3A", "Foo-1"), ("NOAA-20", "Gone-1", "Suomi-NPP"), ("Suomi-NPP", "GOES-16", "NOAA-20"), ("Foo-1", "Gone-1"), ("Sentinel-3A", "NOAA-20")]
    if ctx.thorough:
        names = ["Suomi-NPP", "NOAA-20", "GOES-16", "EOS-Aqua", "NOAA-19", "Sentinel-3A", "Foo-1", "Gone-1"]
        orders = [o for n in (1, 2, 3) for o in itertools.permutations(names, n)]
    orders = [o for o in orders if o]

    def several(ch):
        platforms = ch.choose("platforms", orders)
        sensors = ch.choose("sensors", [("viirs",), ("viirs", "abi"), ("abi", "viirs", "modis"), ("slstr", "olci", "foo", "modis", "viirs"),
                                        ("olci", "slstr", "avhrr/3", "viirs"), ("modis",)])
        keys = [chosen(p, sensors) for p in platforms]
        keys = [key for key in keys if key]
        how = ch.choose("asked by", ["wavelength", "wavelength2", "range", "range2", "excluded", "excluded2", "band"])
        args = ["-p", *platforms, "-s", *sensors]
        low, extra = ch.choose("options", [(None, []), (0.3, ["-no_platform_name_in_legend"]), (0.013, ["-x", 0.5, 4.5, "-y", -0.5, 1.5]),
                                           (None, ["--title", "Some title", "-o", "out/fig.png"])])
        if how == "band":
            shared = [b for b in (FILES[keys[0]] if keys else ["M10"]) if all(b in FILES[key] for key in keys)]
            if not shared:
                return
            band = shared[-1]
            args += ["-b", band]
            want = [(key, band) for key in keys]
        elif how in ("wavelength", "wavelength2"):
            near = 1.62 if how == "wavelength" else 1.79
            args += ["-w", near]
            want = [(key, b) for key in keys for b in FILES[key] if abs(center(key, b) - near) < 0.25]
        else:
            args += ["--range", 1.5, 4.0] if how != "range2" else ["--range", 0.5, 1.6005, "--wavelength_resolution", 0.01]
            top = 4.0 if how != "range2" else 1.6005
            bottom = 1.5 if how != "range2" else 0.5
            out = {"excluded": ["M10", "ch5", "6"], "excluded2": ["M1", "ch", "I", "3"]}.get(how, [])
            args += ["--exclude_bandnames", *out] if out else []
            want = [(key, b) for key in keys for b in FILES[key] if bottom < center(key, b) < top and b not in out]
            if how == "range2":
                want = [pair for pair in want if center(*pair) < 1.58]
        args += ([] if low is None else ["-t", low]) + extra
        text = "composite_rsr_plot.py %s" % " ".join(map(str, args))
        with world():
            saved, _, err = execute("bin/composite_rsr_plot.py", args, True)
        ch.count(1)
        ch.state(platforms, sensors, how, low)
        if not keys:
            check(not any(s.lines for s in saved), "%s: there are no data, but %s was drawn", text, [s.lines for s in saved])
            check(err is None, "%s failed: %r", text, err)
            return
        check(err is None, "%s failed: %r", text, err)
        check(len(saved) == 1, "%s: %d figures", text, len(saved))
        lines = saved[0].lines
        if how == "range2":
            # bands within the resolution of the end of the range may or may not be found
            edge = [visible(key, b, "det-1", 0.015 if low is None else low) for key in keys for b in FILES[key]
                    if 1.58 <= center(key, b) < 1.62]
            lines = [(label, pts) for label, pts in lines
                     if not any(pts.shape == (e[0].size, 2) and np.allclose(pts[:, 0], e[0], 1e-6) for e in edge)]
        legend = "-no_platform_name_in_legend" not in extra
        same_lines(lines, [((b, key[0]) if legend else (b,), *visible(key, b, "det-1", 0.015 if low is None else low)) for key, b in want],
                   text, True)
        if not legend:
            check(not any(p in label for label, _ in lines for p in platforms), "%s: labels %s", text, [label for label, _ in lines])
        if "--title" in extra:
            check("Some title" in saved[0].titles, "%s: titles %s", text, saved[0].titles)
            check(saved[0].where == "out/fig.png", "%s: saved as %s", text, saved[0].where)
        else:
            check(os.path.dirname(saved[0].where) in ("", ".", os.getcwd()), "%s: saved as %s", text, saved[0].where)
        if "-x" in extra:
            check(np.allclose(saved[0].xlim, (0.5, 4.5)) and np.allclose(saved[0].ylim, (-0.5, 1.5)), "%s: limits %s %s", text,
                  saved[0].xlim, saved[0].ylim)

    ctx.explore("composite", several, workers=8, split=2)

    # ------------------------------------------------------------------------------------- wavelength ranges
    def ranges(ch):
        key = ch.choose("data", [k for k in FILES if k[1] in KNOWN.get(k[0], [k[1]])])
        band = ch.choose("band", [None] + list(FILES[key]))
        low = ch.choose("threshold", [None, 0.005, 0.013, 0.3, 0.8])
        det = ch.choose("detector", [None, "det-1", "det-2"])
        bands = [band] if band else list(FILES[key])
        args = [key[0], key[1]] + (["-b", band] if band else []) + (["-r", low] if low else []) + (["-d", det] if det else [])
        text = "find_wavelengths_for_satpy.py %s" % " ".join(map(str, args))
        with world():
            _, out, err = execute("bin/find_wavelengths_for_satpy.py", args, True)
        ch.count(1)
        ch.state(key, band, low, det)
        if any((det or "det-1") not in data(key, b) for b in bands):
            check(err is not None, "%s: there is no such detector, but it succeeded", text)
            return
        check(err is None, "%s failed: %r", text, err)
        found = re.findall(r"name:\s*(\S+)\s*\n\s*wavelength:\s*\[([^]]*)\]", out)
        check(sorted(name for name, _ in found) == sorted(bands), "%s: bands %s instead of %s", text, [n for n, _ in found], bands)
        for name, numbers in found:
            wvl, resp = data(key, name)[det or "det-1"]
            part = wvl[resp > (0.15 if low is None else low)]
            want = [part[0], w.central(wvl, resp), part[-1]]
            got = [float(num) for num in numbers.split(",")]
            check(len(got) == 3 and np.allclose(got, want, 0, 0.000501 + 1e-6), "%s: %s: %s instead of %s", text, name, got, want)

    ctx.explore("ranges", ranges, workers=8, split=2)

    # -------------------------------------------------------------------- one wavelength for a list of platforms
    full = {"Himawari-8": "ahi", "GOES-16": "abi", "Meteosat-10": "seviri", "EOS-Aqua": "modis", "Suomi-NPP": "viirs", "NOAA-20": "viirs"}

    def listed(ch):
        wavelength = ch.choose("wavelength", [0.65, 0.58, 3.8, 10.4, 10.7, 8.0, 2.2])
        low = ch.choose("threshold", [None, 0.013, 0.4])
        pairs = [*full.items(), ("Sentinel-3A", "olci"), ("Sentinel-3A", "slstr")]
        want = [((inst,), *visible((p, inst), b, "det-1", 0.01 if low is None else low)) for p, inst in pairs
                for b in FILES[p, inst] if abs(center((p, inst), b) - wavelength) < 0.1]
        args = [wavelength] + ([] if low is None else ["-t", low])
        text = "plot_some_band.py %s" % " ".join(map(str, args))
        with world():
            saved, _ = execute("plot_some_band.py", args)
        check(len(saved) == 1, "%s: %d figures", text, len(saved))
        same_lines(saved[0].lines, want, text, True)
        ch.count(1)
        ch.state(wavelength, low, len(want))

    ctx.explore("listed", listed, workers=4, split=1)
