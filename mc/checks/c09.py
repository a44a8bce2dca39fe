"""C09: storage of spectral responses."""
import importlib.util
import os
import sys
import types

import h5py
import numpy as np

from mc import world as w
from mc.core import check
from mc.env import REPO

# nominal centres of the MODIS bands in micrometres
MODIS = [0.645, 0.8585, 0.469, 0.555, 1.24, 1.64, 2.13, 0.4125, 0.443, 0.488, 0.531, 0.551, 0.667, 0.678, 0.748, 0.8695,
         0.905, 0.936, 0.94, 3.75, 3.959, 3.959, 4.05, 4.4655, 4.5155, 1.375, 6.715, 7.325, 8.55, 9.73, 11.03, 12.02,
         13.335, 13.635, 13.935, 14.235]
SEVIRI = {"HRV": 0.7, "VIS0.6": 0.635, "VIS0.8": 0.81, "NIR1.6": 1.64, "IR3.9": 3.92, "IR6.2": 6.25, "IR7.3": 7.35,
          "IR8.7": 8.7, "IR9.7": 9.66, "IR10.8": 10.8, "IR12.0": 12.0, "IR13.4": 13.4}


def script(name):
    spec = importlib.util.spec_from_file_location("conv_" + name, os.path.join(REPO, "rsr_convert_scripts", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def curve(num, size, center):
    wvl = np.sort(center + 0.2 * np.linspace(-1, 1, size) + 0.01 * np.sin(np.arange(size) * (num + 1)))
    resp = 0.1 + 0.9 * np.exp(-((np.arange(size) - size * 0.4 - num) / (0.3 * size)) ** 2)
    return wvl, resp


def compare(got, data, text, rtol=2e-6, centers=None):
    check(list(got) == list(data) or sorted(got) == sorted(data), "%s: bands %s instead of %s", text, list(got), list(data))
    for b in data:
        check(sorted(got[b]) == sorted(data[b]), "%s: detectors of %s: %s", text, b, sorted(got[b]))
        for d, (wvl, resp) in data[b].items():
            item = got[b][d]
            check(w.close(item["wavelength"], wvl, rtol), "%s: wavelengths of %s %s: %s", text, b, d,
                  w.worst(item["wavelength"], wvl))
            check(w.close(item["response"], resp, rtol, 1e-9), "%s: responses of %s %s: %s", text, b, d,
                  w.worst(item["response"], resp))
            good = ~np.isnan(wvl)
            want = w.central(wvl[good], resp[good]) if centers is None else centers[b, d]
            check(abs(float(item["central_wavelength"]) - want) < 5e-6 * want, "%s: central wavelength of %s %s is %r "
                  "instead of %r", text, b, d, float(item["central_wavelength"]), want)


def run(ctx):
    from pyspectral import utils
    from pyspectral.rsr_reader import RelativeSpectralResponse

    # ---- writer and reader
    def roundtrip(ch):
        platform, inst, short = ch.choose("platform", [("NOAA-19", "avhrr/3", "avhrr3"), ("EOS-Aqua", "modis", "modis"),
                                                       ("Foo-1", "bar", "bar"), ("Metop-A", "avhrr/3", "avhrr3")])
        names = ch.choose("bands", [["ch1"], ["ch2", "ch1"], ["VIS0.6", "IR_108", "x y"]])
        dets = ch.choose("detectors", [None, 1, 2, 3])
        scale = ch.choose("scale", [None, 1e-6, 1e-9, 1.0, 1e-2])
        size = ch.choose("samples", [2, 3, 9])
        dtype = ch.choose("dtype", ["f8", "f4"])
        padded = ch.flag("padded")
        unit = 1e-6 if scale is None else scale
        detnames = None if dets is None else ["det-%d" % (i + 1) for i in range(dets)]
        data = {}
        for num, name in enumerate(names):
            wvl, _ = curve(num, size + num, 0.6 + 3.1 * num)
            if padded:
                wvl = np.append(wvl, np.nan)
            data[name] = {}
            for det in detnames or ["det-1"]:
                resp = curve(num + int(det[-1]), wvl.size, 1.0)[1]
                data[name][det] = (wvl, resp)
        with w.Store() as store:
            store.current()

            class Raw:
                def __init__(self, bandname, platform_name):
                    assert platform_name == platform
                    self.instrument = inst
                    self.output_dir = store.rsr_dir
                    dets_ = {d: {"wavelength": (wv * (1e-6 / unit)).astype(dtype), "response": re.astype(dtype)}
                             for d, (wv, re) in data[bandname].items()}
                    self.rsr = dets_["det-1"] if detnames is None else dets_

            kwargs = {} if scale is None else {"scale": scale}
            if detnames is not None:
                kwargs["detectors"] = detnames
            utils.convert2hdf5(Raw, platform, names, **kwargs)
            path = store.rsr_path(short, platform)
            check(os.listdir(store.rsr_dir) and os.path.exists(path), "file not found: %s", os.listdir(store.rsr_dir))
            byname = RelativeSpectralResponse(filename=path)
            check(byname.platform_name == platform, "platform %s", byname.platform_name)
            opened = RelativeSpectralResponse(platform, inst)
            for rsr in (byname, opened):
                compare(rsr.rsr, data, "%s scale %s" % (platform, scale))
                check(list(rsr.band_names) == names, "band names %s", rsr.band_names)
                check("Relative Spectral Responses" in rsr.description and inst.upper() in rsr.description, "description %r",
                      rsr.description)
                check(rsr.unit == "1e-6 m" and rsr.si_scale == 1e-6, "unit %s", rsr.unit)
            if platform != "Foo-1":
                check(byname.instrument in (inst, short), "instrument %s", byname.instrument)
            ch.state(len(names), dets, scale, padded)
            ch.count(len(names) * (dets or 1))

    ctx.explore("roundtrip", roundtrip, workers=8, split=2)

    # ---- every flavour of the internal format
    def formats(ch):
        plat = ch.choose("platform", ["str", "bytes", "array", "oscar", "number", "none"])
        sensor = ch.choose("sensor", ["str", "bytes", "array", "table", "none"])
        layout = ch.choose("layout", ["single", "single-det", "shared", "own", "shared-center"])
        scale = ch.choose("scale", [1e-6, 1e-9, 1.0])
        dtype = ch.choose("dtype", ["f4", "f8"])
        encoding = ch.choose("bandnames", ["str", "bytes"])
        descr = ch.choose("description", ["str", "bytes", "array"])
        ndet = 1 if layout.startswith("single") else 3
        names = ["IR_108", "ch1"]
        data, centers = {}, {}
        for num, name in enumerate(names):
            data[name] = {}
            for d in range(ndet):
                size = 5 + num + (d if layout == "own" else 0)
                wvl, resp = curve(num + (d if layout == "own" else 0), size, 0.6 + 3.1 * num)
                resp = curve(num + d, size, 1.0)[1]
                data[name]["det-%d" % (d + 1)] = (wvl, resp)
                # deliberately not the integral: what is stored is read
                centers[name, "det-%d" % (d + 1)] = 0.6 + 3.1 * num + 0.01 * (d if layout != "shared-center" else 0)

        def text(kind, value):
            return {"str": value, "bytes": np.bytes_(value), "array": np.array([value.encode()])}[kind]

        with w.temp_dir() as tmp, w.Store() as store:
            store.current()
            path = os.path.join(tmp, "some.h5")
            want_plat = "Meteosat-9"
            with h5py.File(path, "w") as h5f:
                h5f.attrs["description"] = text(descr, "What it is")
                if plat in ("str", "bytes", "array"):
                    h5f.attrs["platform_name"] = text(plat, want_plat)
                elif plat == "oscar":
                    want_plat = "EOS-Aqua"
                    h5f.attrs["platform"] = "eos"
                    h5f.attrs["sat_number"] = 2
                elif plat == "number":
                    h5f.attrs["platform"] = np.bytes_("meteosat")
                    h5f.attrs["sat_number"] = 9
                else:
                    want_plat = None
                want_sensor = "seviri"
                if sensor in ("str", "bytes", "array"):
                    want_sensor = "xyz"
                    h5f.attrs["sensor"] = text(sensor, want_sensor)
                elif plat == "none":
                    want_sensor = None
                elif plat == "oscar":
                    want_sensor = "modis"
                h5f.attrs["band_names"] = names if encoding == "str" else [n.encode() for n in names]
                for name in names:
                    grp = h5f.create_group(name)
                    if layout != "single":
                        grp.attrs["number_of_detectors"] = ndet
                    for num, (det, (wvl, resp)) in enumerate(data[name].items()):
                        dgrp = grp if layout == "single" else grp.create_group(det)
                        (grp if layout in ("single", "shared-center") else dgrp).attrs["central_wavelength"] = \
                            centers[name, det]
                        dgrp["response"] = resp.astype(dtype)
                        if layout.startswith("shared"):
                            if num == 0:
                                grp["wavelength"] = (wvl * (1e-6 / scale)).astype(dtype)
                                grp["wavelength"].attrs["scale"] = scale
                        else:
                            dgrp["wavelength"] = (wvl * (1e-6 / scale)).astype(dtype)
                            dgrp["wavelength"].attrs["scale"] = scale
            if sensor == "none" and plat == "none":
                # a file that tells neither
                pass
            rsr = RelativeSpectralResponse(filename=path)
            compare(rsr.rsr, data, "%s %s" % (layout, scale), centers=centers)
            check(rsr.platform_name == want_plat, "platform %r instead of %r", rsr.platform_name, want_plat)
            check(rsr.instrument == want_sensor, "instrument %r instead of %r", rsr.instrument, want_sensor)
            check(rsr.description == "What it is", "description %r", rsr.description)
            check(list(rsr.band_names) == names and all(isinstance(n, str) for n in rsr.band_names), "%s", rsr.band_names)
            from pathlib import Path
            check(sorted(RelativeSpectralResponse(filename=Path(path)).rsr) == sorted(names), "path object")
            # the same file found by name
            if plat == "str" and sensor == "table":
                os.rename(path, store.rsr_path("seviri", "Meteosat-9"))
                compare(RelativeSpectralResponse("Meteosat-9", "SEVIRI").rsr, data, "by name", centers=centers)
            ch.state(plat, sensor, layout, scale)
            ch.count(2 * ndet)

    ctx.explore("formats", formats, workers=8, split=2)

    # ---- a file that was replaced (by an update) is what is read afterwards
    def replaced(ch):
        count = 3
        plan = [ch.choose("content %d" % i, ["one", "two", "more bands", "same size"]) for i in range(count)]
        how = ch.choose("replaced by", ["rewriting", "renaming"])
        opened = ch.choose("opened by", ["name", "file"])
        contents = {"one": {"ch1": {"det-1": w.tri_band(0.6, 0.1, 9)}}, "two": {"ch1": {"det-1": w.tri_band(3.7, 0.2, 15)}},
                    "more bands": {n: {"det-1": w.tri_band(c, 0.1, 9)} for n, c in (("ch1", 0.7), ("ch2", 0.9))},
                    "same size": {"ch1": {"det-1": w.tri_band(0.8, 0.1, 9)}}}
        with w.Store() as store:
            store.current()
            path = store.rsr_path("avhrr3", "NOAA-19")
            for num, name in enumerate(plan):
                data = contents[name]
                w.write_rsr(path if how == "rewriting" else path + ".new", data, "NOAA-19", "avhrr/3")
                if how == "renaming":
                    os.replace(path + ".new", path)
                rsr = RelativeSpectralResponse(filename=path) if opened == "file" else RelativeSpectralResponse("NOAA-19", "avhrr/3")
                compare(rsr.rsr, data, "%s after %s, by %s" % (name, plan[:num], how))
                check(list(rsr.band_names) == list(data), "band names %s", rsr.band_names)
                # an object changed by its owner is not what others read
                rsr.convert()
                rsr.rsr["ch1"]["det-1"]["response"] *= 2
        ch.state(tuple(plan), how, opened)
        ch.count(count)

    ctx.explore("replaced", replaced, workers=8, split=2)

    def missing(ch):
        kind = ch.choose("file", ["missing", "directory", "empty"])
        with w.temp_dir() as tmp, w.Store() as store:
            store.current()
            path = os.path.join(tmp, "x.h5")
            if kind == "directory":
                os.mkdir(path)
            elif kind == "empty":
                open(path, "w").close()
            try:
                RelativeSpectralResponse(filename=path)
            except FileNotFoundError:
                check(kind != "empty", "empty file reported as missing")
            except OSError:
                check(kind == "empty", "missing file reported otherwise")
            else:
                check(False, "%s file accepted", kind)

    ctx.explore("missing", missing)

    def strings(ch):
        value = ch.choose("value", ["", "a", "Metop-A", "Łódź", "x" * 40])
        form = ch.choose("form", ["str", "bytes", "np.bytes_", "array1", "array0", "object", "np.str_"])
        make = {"str": lambda: value, "bytes": lambda: value.encode("utf-8"),
                "np.bytes_": lambda: np.bytes_(value.encode("utf-8")), "array1": lambda: np.array([value.encode("utf-8")]),
                "array0": lambda: np.array(value.encode("utf-8")), "object": lambda: np.array([value], dtype=object),
                "np.str_": lambda: np.str_(value)}
        got = utils.convert2str(make[form]())
        check(got == value and isinstance(got, str), "%r became %r", value, got)
        for bad in (np.array(["a", "b"]), np.array([1.5]), 5, None):
            try:
                got = utils.convert2str(bad)
            except ValueError:
                continue
            check(False, "%r became %r", bad, got)

    ctx.explore("strings", strings)

    # ---- the instruments whose original data come with the package
    def shipped_modis(ch):
        platform = ch.choose("platform", ["EOS-Aqua", "EOS-Terra"])
        path = os.path.join(REPO, "pyspectral", "data", "modis", platform)
        if platform == "EOS-Terra":
            path = os.path.join(path, "L1B_RSR_LUT")
        modis = script("modis_rsr")
        with w.Store(extra={platform + "-modis": {"path": path}}) as store:
            store.current()
            modis.convert2hdf5(platform)
            rsr = RelativeSpectralResponse(platform, "modis")
            check(list(rsr.rsr) == [str(i) for i in range(1, 37)], "bands %s", list(rsr.rsr))
            for num in range(1, 37):
                name = ("rsr.%d.inb.final" % num if platform == "EOS-Terra" else
                        "%02d.%s.1pct.det" % (num, "tv" if num in [5, 6, 7] + list(range(20, 37)) else "amb"))
                raw = {}
                with open(os.path.join(path, name)) as inp:
                    for line in inp:
                        if not line.startswith("#"):
                            _, det, wvl, resp = line.split()
                            raw.setdefault("det-%d" % int(det), []).append((float(wvl), float(resp)))
                got = rsr.rsr[str(num)]
                check(sorted(got) == sorted(raw), "detectors of band %s: %s", num, sorted(got))
                for det in raw:
                    pairs = np.array([p for p in raw[det] if p[1] != -99.0])
                    if pairs[:, 0].mean() > 100:
                        pairs[:, 0] *= 0.001
                    wvl = np.asarray(got[det]["wavelength"], "f8")
                    resp = np.asarray(got[det]["response"], "f8")
                    check(np.all(np.diff(wvl) > 0), "band %s %s not increasing", num, det)
                    check(wvl.size == np.unique(pairs[:, 0]).size, "band %s %s: %d samples, raw data have %d", num, det, wvl.size,
                          np.unique(pairs[:, 0]).size)
                    for one, two in zip(wvl[::7], resp[::7]):
                        dist = np.abs(pairs[:, 0] - one) + np.abs(pairs[:, 1] - two)
                        check(dist.min() < 1e-5, "band %s %s: sample %r not in the raw data", num, det, (one, two))
                    check(abs(got[det]["central_wavelength"] - w.central(wvl, resp)) < 1e-4, "band %s %s centre", num, det)
                    check(abs(got[det]["central_wavelength"] / MODIS[num - 1] - 1) < 0.02, "band %s %s: centre %s", num, det,
                          got[det]["central_wavelength"])
                    ch.count(1)

    ctx.explore("shipped-modis", shipped_modis, workers=2, split=1)

    def shipped_seviri(ch):
        import xlrd  # noqa
        num = ch.choose("satellite", [8, 9, 10, 11])
        stub = types.ModuleType("pkg_resources")
        stub.resource_filename = lambda pkg, name: os.path.join(REPO, pkg, name)
        sys.modules.setdefault("pkg_resources", stub)
        sev = script("seviri_rsr")
        data = os.path.join(REPO, "pyspectral", "data", "MSG_SEVIRI_Spectral_Response_Characterisation.XLS")
        with w.Store(extra={"seviri": {"path": data, "filename": os.path.basename(data)}}) as store:
            store.current()
            obj = sev.Seviri()
            sev.generate_seviri_file(obj, "Meteosat-%d" % num)
            rsr = RelativeSpectralResponse("Meteosat-%d" % num, "seviri")
            check(sorted(rsr.rsr) == sorted(SEVIRI), "bands %s", sorted(rsr.rsr))
            check(rsr.platform_name == "Meteosat-%d" % num, "platform")
            for b, center in SEVIRI.items():
                got = rsr.rsr[b]["det-1"]
                wvl, resp = np.asarray(got["wavelength"], "f8"), np.asarray(got["response"], "f8")
                raw = obj.rsr[b]["Meteosat-%d" % num]
                raw = raw["95"] if isinstance(raw, dict) else raw
                check(w.close(wvl, obj.rsr[b]["wavelength"], 1e-6) and w.close(resp, raw, 1e-6, 1e-9), "%s differs", b)
                check(abs(got["central_wavelength"] - w.central(wvl, resp)) < 1e-4 * center, "%s: centre", b)
                check(abs(got["central_wavelength"] / center - 1) < 0.05, "%s: centre %s", b, got["central_wavelength"])
                ch.count(1)

    try:
        import xlrd  # noqa
        ctx.explore("shipped-seviri", shipped_seviri, workers=4, split=1)
    except ImportError:
        ctx.assume("xlrd is not installed: the SEVIRI table was not converted")
