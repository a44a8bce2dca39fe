"""C02: neither the cache nor earlier calls influence the reflectances."""
import copy
import os

import dask.array as da
import numpy as np
import xarray as xr

from mc import nir
from mc import world as w
from mc.core import check

# (platform, file instrument) -> {band: {detector: curve}}; every curve is different
BANDS = {
    ("EOS-Aqua", "modis"): {"20": {"det-1": w.tri_band(3.75, 0.10, 9), "det-2": w.tri_band(3.79, 0.10, 9),
                                   "det-3": w.tri_band(3.70, 0.08, 9)},
                            "21": {"det-1": w.tri_band(3.90, 0.04, 9), "det-2": w.tri_band(3.90, 0.06, 9)}},
    ("EOS-Terra", "modis"): {"20": {"det-1": w.tri_band(3.74, 0.12, 9), "det-2": w.tri_band(3.66, 0.12, 9)}},
    ("Suomi-NPP", "viirs"): {"M12": {"det-1": w.tri_band(3.70, 0.09, 9)}, "I4": {"det-1": w.tri_band(3.78, 0.19, 9)}},
    ("NOAA-20", "viirs"): {"M12": {"det-1": w.tri_band(3.66, 0.09, 9)}, "I4": {"det-1": w.tri_band(3.84, 0.19, 9)}},
    ("NOAA-19", "avhrr3"): {"ch3b": {"det-1": w.tri_band(3.72, 0.17, 9)}},
    ("Metop-A", "avhrr3"): {"ch3b": {"det-1": w.tri_band(3.76, 0.15, 9)}},
    ("Sentinel-3A", "slstr"): {"ch7": {"det-1": w.tri_band(3.73, 0.18, 9)}},
}
# (platform, instrument as given, band as given, options, file instrument, band, detector)
BUILD = [
    ("EOS-Aqua", "modis", "20", {}, "modis", "20", "det-1"),
    ("EOS-Aqua", "modis", "20", {"detector": "det-2"}, "modis", "20", "det-2"),
    ("EOS-Aqua", "modis", "20", {"detector": "det-3", "sunz_threshold": 70.0}, "modis", "20", "det-3"),
    ("EOS-Aqua", "modis", "21", {}, "modis", "21", "det-1"),
    ("EOS-Aqua", "modis", 3.75, {"solar_flux": 4.0}, "modis", "20", "det-1"),
    ("EOS-Terra", "modis", "20", {"masking_limit": None}, "modis", "20", "det-1"),
    ("EOS-Terra", "modis", "20", {"detector": "det-2"}, "modis", "20", "det-2"),
    ("Suomi-NPP", "viirs", "M12", {}, "viirs", "M12", "det-1"),
    ("Suomi-NPP", "VIIRS", "M12", {"solar_flux": 3.0}, "viirs", "M12", "det-1"),
    ("Suomi-NPP", "viirs", "I04", {}, "viirs", "I4", "det-1"),
    ("Suomi-NPP", "viirs", "I4", {"masking_limit": 75.0}, "viirs", "I4", "det-1"),
    ("NOAA-20", "viirs", 3.66, {}, "viirs", "M12", "det-1"),
    ("NOAA-20", "viirs", "I04", {"sunz_threshold": 80.0, "masking_limit": 88.0}, "viirs", "I4", "det-1"),
    ("NOAA-19", "avhrr/3", "3b", {}, "avhrr3", "ch3b", "det-1"),
    ("NOAA-19", "avhrr-3", "ch3b", {"solar_flux": 1.5}, "avhrr3", "ch3b", "det-1"),
    ("Metop-A", "avhrr/3", 3.76, {}, "avhrr3", "ch3b", "det-1"),
    ("Sentinel-3A", "slstr", "S7", {}, "slstr", "ch7", "det-1"),
]
SUNZ = np.array([10.0, 72.0, 79.0, 84.0, 87.0, -1.0])
TB3 = np.array([310.03, 300.04, 295.02, 300.06, 290.04, 300.01])
TB11 = np.array([290.02, 285.04, 270.02, 290.03, 285.02, 275.05])
TBC = np.array([262.0, 250.0, 240.0, 260.0, 258.0, 250.0])


def model(spec, arrays=(SUNZ, TB3, TB11), co2=None, scale=1.0):
    opts = dict(spec[3])
    opts.setdefault("solar_flux", 2.0)
    band = band_of(spec, opts["solar_flux"])
    lims = {"threshold": opts.get("sunz_threshold", 85.0), "limit": opts.get("masking_limit", 85.0)}
    if scale != 1.0:
        band = copy.copy(band)
        band.radiances = lambda temps, plain=band.radiances: plain(temps) * scale
    refl, margin, rad11, rad3 = band.model(*arrays, co2=co2, **lims)
    return refl, band.emissive(refl, rad11, rad3)


_MEMO = {}


def band_of(spec, flux):
    key = (spec[0], spec[4], spec[5], spec[6], flux)
    if key not in _MEMO:
        _MEMO[key] = nir.Band(*BANDS[spec[0], spec[4]][spec[5]][spec[6]], flux=flux)
    return _MEMO[key]


def build(spec):
    from pyspectral.near_infrared_reflectance import Calculator
    opts = dict(spec[3])
    opts.setdefault("solar_flux", 2.0)
    return Calculator(spec[0], spec[1], spec[2], **opts)


def fill(store):
    store.current()
    for (platform, inst), bands in BANDS.items():
        w.write_rsr(store.rsr_path(inst, platform), bands, platform, inst, dtype="f8")
    return store


def same(got, want, text, rtol=1e-8):
    got = np.asarray(w.to_np(got), "f8").reshape(want.shape)
    check(w.close(got, want, rtol, 1e-7 if rtol < 1e-6 else rtol), "%s: %s", text, w.worst(got, want))


def run(ctx):
    configs = ["plain", "dict", "dict-lower", "shared-dir-missing"]

    def options(kind, root):
        if kind == "plain":
            return {}
        folder = os.path.join(root, "luts" if kind != "shared-dir-missing" else "absent")
        if kind != "shared-dir-missing":
            os.makedirs(folder)
        names = {"M12": "m12", "I4": "i4"} if kind == "dict-lower" else {"M12": "M12", "I4": "I4"}
        conf = {}
        for platform in ("Suomi-NPP", "NOAA-20"):
            conf["%s-viirs" % platform] = {
                "tb2rad_lut_filename": {names[b]: os.path.join(folder, "lut_%s_%s" % (platform, b) +
                                                               (".npz" if b == "M12" else "")) for b in names}}
        return conf

    def constructions(ch):
        kind = ch.choose("config", configs)
        depth = ctx.pick(2, 3)
        viirs = [s for s in BUILD if "viirs" in s[4]]
        alphabet = BUILD if kind == "plain" else viirs
        history = [ch.choose("build%d" % i, alphabet) for i in range(depth if kind == "plain" else 3)]
        root = w.fresh_dir("store")
        with fill(w.Store(root=root, extra=options(kind, root))):
            calcs = []
            for num, spec in enumerate(history):
                calc = build(spec)
                calcs.append((calc, spec))
                same(calc.reflectance_from_tbs(SUNZ, TB3, TB11), model(spec)[0], "calculator %d %s" % (num, spec))
            for num, (calc, spec) in reversed(list(enumerate(calcs[:-1]))):
                same(calc.reflectance_from_tbs(SUNZ, TB3, TB11), model(spec)[0], "calculator %d %s after all" % (num, spec))
            ch.state(kind, sorted(os.listdir(os.path.join(root, "tb2rad"))))
            ch.count(2 * len(calcs) * SUNZ.size)

    ctx.explore("constructions", constructions, workers=8, split=2)

    # the solar flux derived by the calculator itself
    def derived(ch):
        from mc.checks.c18 import flux_reference
        from pyspectral.near_infrared_reflectance import Calculator
        history = [ch.choose("build%d" % i, BUILD[:3] + BUILD[9:10] + BUILD[13:14]) for i in range(2)]
        with fill(w.Store()):
            for spec in history:
                calc = Calculator(spec[0], spec[1], spec[2], **{k: v for k, v in spec[3].items() if k != "solar_flux"})
                curve = BANDS[spec[0], spec[4]][spec[5]][spec[6]]
                want = flux_reference(curve[0], curve[1], 0.0005)
                check(abs(calc.solar_flux - want) < 3e-4 * want, "%s: flux %r instead of %r", spec, calc.solar_flux, want)
                spec = spec[:3] + (dict(spec[3], solar_flux=calc.solar_flux),) + spec[4:]
                same(calc.reflectance_from_tbs(SUNZ, TB3, TB11), model(spec)[0], "derived flux %s" % (spec,))

    ctx.explore("derived", derived, workers=8, split=1)

    # ---- call histories on two calculators
    shift = np.array([0.0, 2.0, -1.0])
    second = [SUNZ[::-1].copy(), TB3 + shift[1], TB11 + shift[2]]
    calls = ["plain", "co2", "dask", "dask-co2", "single", "2d", "other", "short", "masked", "xarray", "emissive-tb",
             "emissive-rad", "scalar", "own-table", "radiance", "temperature", "lut-off"]
    specs = [BUILD[0], BUILD[1]]

    def call(calc, spec, what, last):
        """Returns [(result, expected, rtol)]; expected None: nothing to judge."""
        one = [SUNZ, TB3, TB11]
        if what == "plain":
            return calc.reflectance_from_tbs(*one), model(spec)[0], 1e-8, (one, None)
        if what == "co2":
            return calc.reflectance_from_tbs(*one, tb_ir_co2=TBC), model(spec, co2=TBC)[0], 1e-8, (one, TBC)
        if what in ("dask", "dask-co2"):
            extra = {"tb_ir_co2": da.from_array(TBC - 3, chunks=3)} if what == "dask-co2" else {}
            arrs = [da.from_array(a, chunks=(2, 4)) for a in second]
            arrs = [a.rechunk(((2, 4),)) for a in arrs]
            co2 = TBC - 3 if extra else None
            return calc.reflectance_from_tbs(*arrs, **extra), model(spec, second, co2)[0], 1e-8, (second, co2)
        if what == "single":
            arrs = [a.astype("f4") for a in one]
            return calc.reflectance_from_tbs(*arrs), model(spec, arrs)[0], 1e-3, (arrs, None)
        if what == "2d":
            arrs = [a.reshape((2, 3)) for a in second]
            return calc.reflectance_from_tbs(*arrs), model(spec, arrs)[0], 1e-8, (arrs, None)
        if what == "other":
            return calc.reflectance_from_tbs(*second), model(spec, second)[0], 1e-8, (second, None)
        if what == "short":
            arrs = [a[:2] for a in one]
            return calc.reflectance_from_tbs(*arrs, tb_ir_co2=TBC[:2]), model(spec, arrs, TBC[:2])[0], 1e-8, (arrs, TBC[:2])
        if what == "masked":
            arrs = [np.ma.masked_array(a, mask=np.arange(6) == 1) for a in one]
            want = model(spec)[0]
            want[1] = np.nan
            return calc.reflectance_from_tbs(SUNZ, *arrs[1:]), want, 1e-8, \
                ([np.where(np.arange(6) == 1, np.nan, a) for a in one], None)
        if what == "xarray":
            arrs = [xr.DataArray(da.from_array(a, chunks=4), dims="x") for a in one]
            return calc.reflectance_from_tbs(*arrs), model(spec)[0], 1e-8, (one, None)
        if what == "scalar":
            arrs = [np.array([a[0]]) for a in one]
            return calc.reflectance_from_tbs(*[float(a[0]) for a in one]), model(spec, arrs)[0], 1e-8, (arrs, None)
        if what == "own-table":
            lut = {"tb": 150.0 + np.arange(2100) / 10, "radiance": LUTS[spec[6]] * 1.02}
            return calc.reflectance_from_tbs(*one, lut=lut), model(spec, scale=1.02)[0], 1e-8, (one, None, 1.02)
        if what == "radiance":
            band = band_of(spec, 2.0)
            return calc.tb2radiance(TB3, lut=calc.lut)["radiance"], band.radiances(TB3), 1e-8, last
        if what == "lut-off":
            band = band_of(spec, 2.0)
            return calc.tb2radiance(TB3)["radiance"], np.array([band.direct(t) for t in TB3]), 1e-8, last
        if what == "temperature":
            band = band_of(spec, 2.0)
            rads = band.radiances(TB3)
            return calc.radiance2tb(rads), band.temperature(rads), 1e-8, last
        # emissive part
        if last is None:
            return None, None, 0, last
        _, rads = model(spec, *last)
        rtol = 2e-3 if last[0][1].dtype == np.dtype("f4") else 1e-7
        if what == "emissive-tb":
            return calc.emissive_part_3x(), band_of(spec, 2.0).temperature(rads), rtol, last
        return calc.emissive_part_3x(tb=False), rads, rtol, last

    LUTS = {s[6]: band_of(s, 2.0).radiances(150.0 + np.arange(2100) / 10 + 0.05) for s in specs}

    def scenes(ch):
        """Two scenes, each with its emissive part, on one calculator."""
        derive = ["plain", "co2", "dask", "dask-co2", "single", "2d", "other", "short", "xarray"]
        emissive = ["emissive-tb", "emissive-rad"]
        plan = [(0, ch.choose("scene1", derive)), (0, ch.choose("emissive1", emissive)),
                (0, ch.choose("scene2", derive)), (0, ch.choose("emissive2", emissive))]
        follow(ch, plan)

    def histories(ch):
        depth = 3
        plan = []
        for step in range(depth):
            # a second calculator joins at the second step
            who = ch.choose("on%d" % step, [0] if step == 0 else [0, 1])
            what = ch.choose("call%d" % step, calls if ctx.thorough or step < 2 else
                             ["plain", "dask", "emissive-tb", "emissive-rad"])
            plan.append((who, what))
        follow(ch, plan)

    def follow(ch, plan):
        with fill(w.Store()):
            calcs = [build(s) for s in specs]
            last = [None, None]
            results = []
            for step, (who, what) in enumerate(plan):
                got, want, rtol, last[who] = call(calcs[who], specs[who], what, last[who])
                if want is None:
                    continue
                if isinstance(got, np.ndarray):
                    same(got, want, "step %d" % step, rtol)
                results.append((got, want, rtol, step))
            for got, want, rtol, step in results:
                same(got, want, "result of step %d seen at the end" % step, rtol)
                ch.count(want.size)
            ch.state([p for p in plan])

    ctx.explore("histories", histories, workers=8, split=2)
    ctx.explore("scenes", scenes, workers=8, split=2)
    ctx.assume("The response data do not change while tables made from them are cached.")
    ctx.assume("A single table file name configured for all bands of a sensor is the user's responsibility (only the "
               "per-band form is explored).")

