"""C12: SEVIRI regression."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from mc import world as w
from mc.core import check

# central wavenumber (cm-1), alpha, beta (K)
COEF = {"IR3.9": {"Meteosat-8": (2567.330, 0.9956, 3.410), "Meteosat-9": (2568.832, 0.9954, 3.438)},
        "IR6.2": {"Meteosat-8": (1598.103, 0.9962, 2.218), "Meteosat-9": (1600.548, 0.9963, 2.185)},
        "IR7.3": {"Meteosat-8": (1362.081, 0.9991, 0.478), "Meteosat-9": (1360.330, 0.9991, 0.470)},
        "IR8.7": {"Meteosat-8": (1149.069, 0.9996, 0.179), "Meteosat-9": (1148.620, 0.9996, 0.179)},
        "IR9.7": {"Meteosat-8": (1034.343, 0.9999, 0.060), "Meteosat-9": (1035.289, 0.9999, 0.056)},
        "IR10.8": {"Meteosat-8": (930.647, 0.9983, 0.625), "Meteosat-9": (931.700, 0.9983, 0.640)},
        "IR12.0": {"Meteosat-8": (839.660, 0.9988, 0.397), "Meteosat-9": (836.445, 0.9988, 0.408)},
        "IR13.4": {"Meteosat-8": (752.387, 0.9981, 0.578), "Meteosat-9": (751.792, 0.9981, 0.561)}}
NAMES = {"IR3.9": ["IR3.9", "IR_039"], "IR6.2": ["IR6.2", "WV6.2", "WV_062"], "IR7.3": ["IR7.3", "WV7.3", "WV_073"],
         "IR8.7": ["IR8.7", "IR_087"], "IR9.7": ["IR9.7", "IR_097"], "IR10.8": ["IR10.8", "IR_108"],
         "IR12.0": ["IR12.0", "IR_120"], "IR13.4": ["IR13.4", "IR_134"]}


def forward(coef, tb):
    nu = coef[0] * 100.0
    return w.C2 * nu ** 3 / np.expm1(w.C1 * nu / (coef[1] * tb + coef[2]))


def backward(coef, rad):
    nu = coef[0] * 100.0
    return w.C1 * nu / (coef[1] * np.log1p(w.C2 * nu ** 3 / rad)) - coef[2] / coef[1]


def run(ctx):
    from pyspectral.radiance_tb_conversion import SeviriRadTbConverter

    temps = np.r_[np.arange(150.0, 361.0, ctx.pick(5.0, 0.5)), 180.25, 273.15, 300.01]

    def values(ch):
        sat = ch.choose("satellite", ["Meteosat-8", "Meteosat-9"])
        band = ch.choose("band", list(COEF))
        name = ch.choose("name", NAMES[band])
        conv = SeviriRadTbConverter(sat, name)
        coef = COEF[band][sat]
        want = forward(coef, temps)
        forms = {"numpy": temps, "2d": temps[:len(temps) // 2 * 2].reshape(2, -1), "dask": da.from_array(temps, chunks=7),
                 "xarray": xr.DataArray(temps, dims="x"), "3d": temps[:len(temps) // 6 * 6].reshape(2, -1, 3),
                 "2d-dask": da.from_array(temps[:len(temps) // 2 * 2].reshape(-1, 2), chunks=(5, 1)), "f4": temps.astype("f4")}
        for label, form in forms.items():
            rtol = 1e-4 if label == "f4" else 1e-12
            res = conv.tb2radiance(form)
            got = w.to_np(res["radiance"])
            check(got.shape == form.shape, "%s %s %s: shape %s became %s", sat, name, label, form.shape, got.shape)
            ref = want[:got.size].reshape(got.shape)
            check(w.close(got, ref, rtol), "%s %s %s radiance: %s", sat, name, label, w.worst(got, ref))
            check(isinstance(res["radiance"], type(form)), "%s became %s", type(form), type(res["radiance"]))
            check(np.all(np.diff(got.ravel()[:-3]) > 0) or form.ndim > 1, "not growing")
            check(res["scale"] == 1.0 and "(m^-1)^-1" in res["unit"], "unit %s", res["unit"])
            back = w.to_np(conv.radiance2tb(res["radiance"]))
            check(back.shape == form.shape, "%s %s %s: shape %s became %s", sat, name, label, form.shape, back.shape)
            ref = temps[:got.size].reshape(got.shape)
            check(w.close(back, ref, 2e-6 if label == "f4" else 1e-10), "%s %s %s back: %s", sat, name, label,
                  w.worst(back, ref))
            again = w.to_np(conv.tb2radiance(conv.radiance2tb(res["radiance"]))["radiance"])
            check(w.close(again, got, 1e-4 if label == "f4" else 1e-9), "%s %s %s forth", sat, name, label)
            ch.count(3 * got.size)
        check(w.close(w.to_np(conv.radiance2tb(want)), backward(coef, want), 1e-12), "inverse formula")
        for tb in temps[::9]:
            rad = conv.tb2radiance(float(tb))["radiance"]
            check(abs(rad - forward(coef, tb)) < 1e-12 * rad, "scalar")
            check(abs(conv.radiance2tb(float(rad)) - tb) < 1e-7, "scalar back")
            check(abs(conv.tb2radiance(tb, normalized=True, lut=None)["radiance"] - rad) < 1e-12 * rad, "explicit defaults")
        for kwargs in (dict(lut={"tb": temps, "radiance": want}), dict(lut={}), dict(normalized=False)):
            if kwargs == dict(lut={}):
                continue
            try:
                conv.tb2radiance(temps, **kwargs)
            except NotImplementedError:
                continue
            check(False, "%s accepted", sorted(kwargs))
        # same after all this
        check(w.close(w.to_np(conv.tb2radiance(temps)["radiance"]), want, 1e-12), "changed by use")
        ch.state(sat, band)

    ctx.explore("values", values, workers=8, split=2)

    def isolation(ch):
        one = ch.choose("first", list(itertools.product(["Meteosat-8", "Meteosat-9"], list(COEF))))
        two = ch.choose("second", list(itertools.product(["Meteosat-8", "Meteosat-9"], list(COEF))))
        convs = [SeviriRadTbConverter(*pair) for pair in (one, two)]
        for order in ((0, 1), (1, 0), (0, 1)):
            for num in order:
                sat, band = (one, two)[num]
                got = convs[num].tb2radiance(300.0)["radiance"]
                check(abs(got - forward(COEF[band][sat], 300.0)) < 1e-12 * got, "%s %s after %s %s", sat, band, *(one, two)[1 - num])
                ch.count(1)

    ctx.explore("isolation", isolation)

    def refused(ch):
        sat = ch.choose("satellite", ["Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11", "Meteosat-7", "NOAA-19"])
        band = ch.choose("band", ["IR3.9", "IR_108", "VIS0.6", "VIS008", "HRV", "IR_016", "nope", 10.8, 3.9])
        ok = sat in ("Meteosat-8", "Meteosat-9") and band in ("IR3.9", "IR_108")
        for use in ("tb2radiance", "radiance2tb"):
            try:
                conv = SeviriRadTbConverter(sat, band)
                if use == "tb2radiance":
                    conv.tb2radiance(300.0)
                else:
                    conv.radiance2tb(1e-4)
            except Exception as err:
                check(not ok, "%s %s refused: %r", sat, band, err)
            else:
                check(ok, "%s %s accepted by %s", sat, band, use)
            ch.count(1)

    ctx.explore("refused", refused)
