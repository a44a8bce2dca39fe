"""C13: near-infrared reflectance per pixel."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from mc import nir
from mc import world as w
from mc.core import check

SUNZ = [-5.0, -0.001, 0.0, 25.0, 60.0, 69.0, 74.0, 79.5, 84.97, 85.03, 87.5, 89.0, 92.0, 120.0, np.nan]
TB3 = [100.02, 150.03, 240.04, 285.03, 300.06, 335.02, 359.97, 420.03, np.nan]
TB11 = [150.03, 230.06, 280.02, 300.04, 330.05, 390.03, np.nan]
CO2 = [None, 220.0, 265.5, 300.0, np.nan]
PLATFORM, INST, BAND = "EOS-Aqua", "modis", "20"


def solar_flux(wvl_um, resp):
    """In-band solar flux with the spectrum shipped with the package."""
    from mc.checks.c18 import flux_reference
    return flux_reference(wvl_um, resp, 0.0005)


def make_store(curve, det2=None):
    store = w.Store().current()
    bands = {BAND: {"det-1": curve}}
    if det2 is not None:
        bands[BAND]["det-2"] = det2
    w.write_rsr(store.rsr_path(INST, PLATFORM), bands, PLATFORM, INST, dtype="f8")
    return store


CURVES = {"narrow": w.tri_band(3.75, 0.12, 11), "wide": w.tri_band(3.8, 0.3, 15, skew=0.5),
          "strong": (w.tri_band(3.7, 0.2, 9)[0], 2.0 * w.tri_band(3.7, 0.2, 9)[1])}


def compare(got, want, margin, rtol, text, skip=None):
    """Judge all pixels that are not too close to the margin."""
    got, want = np.asarray(got, "f8"), np.asarray(want, "f8")
    check(got.shape == want.shape, "%s: shape %s instead of %s", text, got.shape, want.shape)
    bad = np.isnan(got) != np.isnan(want)
    denom = np.abs(margin + 0.005)
    tol = rtol * (np.abs(want) + 1.0 + 1.0 / np.maximum(denom, 1e-3))
    with np.errstate(invalid="ignore"):
        bad |= np.abs(got - want) > tol
    bad &= ~(np.abs(margin) < 1e-4)
    if skip is not None:
        bad &= ~skip
    check(not bad.any(), "%s: %s", text, w.worst(np.where(bad, got, 0), np.where(bad, want, 0)))


def run(ctx):
    from pyspectral.near_infrared_reflectance import Calculator

    configs = [(85.0, 85.0), (85.0, 88.0), (80.0, 85.0), (70.0, 95.0), (75.0, None), (88.0, 70.0), (85.0, 0.0), (90.0, 180.0)]

    def pixels(ch):
        name = ch.choose("curve", list(CURVES))
        limits = ch.choose("limits", ["default"] + configs)
        flux = ch.choose("flux", [2.0, 0.5, 12.0, None])
        dtype = ch.choose("dtype", ["f8", "f4"])
        co2 = ch.choose("co2", CO2)
        wvl, resp = CURVES[name]
        with make_store(CURVES[name]):
            kwargs = {} if limits == "default" else {"sunz_threshold": limits[0], "masking_limit": limits[1]}
            if flux is not None:
                kwargs["solar_flux"] = flux
            calc = Calculator(PLATFORM, INST, BAND, **kwargs)
            band = nir.Band(wvl, resp, flux if flux is not None else solar_flux(wvl, resp))
            if flux is None:
                check(abs(calc.solar_flux - band.flux) < 2e-4 * band.flux, "solar flux %r instead of %r", calc.solar_flux,
                      band.flux)
            combos = np.array(list(itertools.product(SUNZ, TB3, TB11)), dtype=dtype)
            args = [combos[:, 0], combos[:, 1], combos[:, 2]]
            thr, lim = (85.0, 85.0) if limits == "default" else limits
            extra, co2arr = {}, None
            if co2 is not None:
                co2arr = np.full(len(combos), co2, dtype)
                extra["tb_ir_co2"] = co2arr
            want, margin, _, _ = band.model(*args, co2=co2arr, threshold=thr, limit=lim)
            copies = [a.copy() for a in args]
            got = calc.reflectance_from_tbs(*args, **extra)
            rtol = (2e-4 if dtype == "f4" else 1e-8) if flux is not None else 5e-4
            text = "%s %s flux %s %s co2 %s" % (name, limits, flux, dtype, co2)
            check(isinstance(got, np.ndarray) and got.dtype == np.dtype(dtype), "%s: %s %s", text, type(got),
                  getattr(got, "dtype", None))
            compare(got, want, margin, rtol, text)
            check(all(np.array_equal(a, c, equal_nan=True) for a, c in zip(args, copies)), "%s: inputs changed", text)
            valid = ~np.isnan(want)
            ch.state(name, limits, co2 is None, int(valid.sum()))
            ch.count(want.size)

    ctx.explore("pixels", pixels, workers=8, split=3)

    # ---- containers
    size = 6
    sunz = np.array([20.0, 50.0, 86.0, -1.0, 70.0, 84.5])
    tb3 = np.array([310.03, 300.04, 305.02, 300.06, np.nan, 290.03])
    tb11 = np.array([290.02, 285.04, 280.02, 290.03, 285.02, 275.05])
    tbc = np.array([262.0, 250.0, 255.0, 260.0, 258.0, np.nan])
    kinds = ["numpy", "dask", "xarray", "xarray-dask", "masked", "list"]

    def wrap(arr, kind, chunks, shape, mask=None):
        arr = arr.reshape(shape)
        if kind == "numpy":
            return arr
        if kind == "dask":
            return da.from_array(arr, chunks=chunks)
        if kind == "xarray":
            return xr.DataArray(arr, dims=("y", "x")[2 - arr.ndim:])
        if kind == "xarray-dask":
            return xr.DataArray(da.from_array(arr, chunks=chunks), dims=("y", "x")[2 - arr.ndim:])
        if kind == "masked":
            return np.ma.masked_array(np.where(mask.reshape(shape), 299.0, arr) if mask is not None else arr,
                                      mask=mask.reshape(shape) if mask is not None else False)
        return arr.tolist()

    store = make_store(CURVES["narrow"])
    with store:
        calcs = w.PerProcess(lambda lim: Calculator(PLATFORM, INST, BAND, solar_flux=2.0, masking_limit=lim))
        band = nir.Band(*CURVES["narrow"], flux=2.0)

        def containers(ch):
            limit = ch.choose("limit", [85.0, None])
            shape = ch.choose("shape", [(6,), (2, 3), (3, 2), (6, 1)])
            kind = ch.choose("tbs", kinds)
            zkind = ch.choose("angles", ["numpy", "dask", "xarray", "masked"] + (["list"] if kind == "list" else []))
            co2 = ch.choose("co2", [None, "same", "numpy", "masked"])
            dtype = ch.choose("dtype", ["f8", "f4"]) if kind != "list" else "f8"
            masks = ch.choose("mask", [(), (0,), (1, 4), (0, 1, 2, 3, 4, 5)]) if kind == "masked" else ()
            which = ch.choose("masked", ["near", "thermal", "both", "near (thermal plain)", "thermal (near plain)"]) \
                if masks else "both"
            if "dask" in kind:
                every = [w.chunkings(n) if ctx.thorough or n < 6 else w.chunkings(n)[::5] for n in shape]
                chunks = ch.choose("chunks", list(itertools.product(*every)))
            else:
                chunks = shape
            mask = np.zeros(size, bool)
            mask[list(masks)] = True
            calc = calcs[limit]
            zmask, cmask = np.arange(size) == 1, np.arange(size) == 0
            zen = wrap(sunz.astype(dtype), zkind, chunks, shape, zmask)
            one = wrap(tb3.astype(dtype), "numpy" if "near plain" in which else kind, chunks, shape,
                       mask if not which.startswith("thermal") else np.zeros(size, bool))
            two = wrap(tb11.astype(dtype), "numpy" if "thermal plain" in which else kind, chunks, shape,
                       mask if not which.startswith("near") else np.zeros(size, bool))
            extra = {}
            if co2:
                ckind = co2 if co2 != "same" else kind if kind != "masked" else "numpy"
                extra["tb_ir_co2"] = wrap(tbc.astype(dtype), ckind, chunks, shape, cmask)
            args = [a.astype(dtype).astype("f8").reshape(shape) for a in (sunz, tb3, tb11)]
            want, margin, _, _ = band.model(*args, co2=tbc.astype(dtype).astype("f8").reshape(shape) if co2 else None,
                                            limit=limit)
            lost = mask | (zmask & (zkind == "masked")) | (cmask & (co2 == "masked"))
            want = np.where(lost.reshape(shape), np.nan, want)
            got = calc.reflectance_from_tbs(zen, one, two, **extra)
            text = "%s %s %s %s" % (kind, shape, dtype, which)
            if "dask" in kind:
                check(hasattr(got, "compute"), "%s: evaluated", text)
            elif kind == "masked":
                check(isinstance(got, np.ma.MaskedArray), "%s: %s returned", text, type(got))
                check(np.array_equal(np.ma.getmaskarray(got), np.isnan(want)), "%s: mask %s", text, np.ma.getmaskarray(got))
            elif kind in ("numpy", "list"):
                check(isinstance(got, np.ndarray), "%s: %s returned", text, type(got))
            if kind != "masked":
                check(got.dtype == np.dtype(dtype), "%s: type %s", text, got.dtype)
            compare(w.to_np(got), want, margin, 2e-4 if dtype == "f4" else 1e-8, text)
            ch.state(kind, shape, dtype, co2)
            ch.count(size)

        ctx.explore("containers", containers, workers=8, split=3)

        # one pixel among others of another kind
        mixed = np.array([[20.0, 310.03, 290.02, 270.0], [50.0, 280.03, 290.02, 260.0], [86.0, 305.02, 280.02, 260.0],
                          [120.0, 290.03, 280.02, 260.0], [-1.0, 300.06, 290.03, 260.0], [84.5, 290.03, 275.05, 280.0],
                          [30.0, np.nan, 285.02, 260.0], [30.0, 300.03, np.nan, 260.0], [np.nan, 300.03, 285.02, 260.0],
                          [30.0, 300.03, 285.02, np.nan], [30.0, 130.03, 285.02, 270.0], [30.0, 380.03, 285.02, 270.0],
                          [30.0, 300.03, 340.02, 330.0]])

        def company(ch):
            limit = ch.choose("limit", [85.0, None])
            idx = w.company(ch, mixed)
            for co2 in (False, True):
                for dtype in ("f8", "f4"):
                    arrs = [np.ascontiguousarray(mixed[idx, i]).astype(dtype) for i in range(4)]
                    want, margin, _, _ = band.model(*[a.astype("f8") for a in arrs[:3]], co2=arrs[3].astype("f8") if co2 else None,
                                                    limit=limit)
                    for kind in ("numpy", "dask"):
                        args = arrs if kind == "numpy" else [da.from_array(a, chunks=10) for a in arrs]
                        extra = {"tb_ir_co2": args[3]} if co2 else {}
                        got = calcs[limit].reflectance_from_tbs(*args[:3], **extra)
                        compare(w.to_np(got), want, margin, 2e-4 if dtype == "f4" else 1e-8, "%s %s %s" % (kind, dtype, idx[[0, 1, -1]]))
                        ch.count(want.size)
            ch.state(limit, idx[0], idx[1], idx[-1])

        ctx.explore("company", company, workers=8, split=2)

        def scalars(ch):
            limit = ch.choose("limit", [85.0, None])
            pos = ch.choose("pixel", range(size))
            co2 = ch.flag("co2")
            kind = ch.choose("kind", ["float", "np.float64", "list"])
            cast = {"float": float, "np.float64": np.float64, "list": lambda x: [float(x)]}[kind]
            extra = {"tb_ir_co2": cast(tbc[pos])} if co2 else {}
            got = calcs[limit].reflectance_from_tbs(cast(sunz[pos]), cast(tb3[pos]), cast(tb11[pos]), **extra)
            want, margin, _, _ = band.model(sunz[pos:pos + 1], tb3[pos:pos + 1], tb11[pos:pos + 1],
                                            co2=tbc[pos:pos + 1] if co2 else None, limit=limit)
            compare(np.ravel(w.to_np(got)), want, margin, 1e-8, "scalar")

        ctx.explore("scalars", scalars)

        def shapes(ch):
            one = ch.choose("near", [(6,), (2, 3), (3, 2), (5,), (1, 6)])
            two = ch.choose("thermal", [(6,), (2, 3), (3, 2), (5,), (1, 6)])
            if one == two:
                return
            try:
                calcs[85.0].reflectance_from_tbs(np.full(one, 30.0), np.full(one, 300.0), np.full(two, 290.0))
            except ValueError:
                return
            check(False, "shapes %s and %s accepted", one, two)

        ctx.explore("shapes", shapes)

        # a table of the caller's own
        def tables(ch):
            factor = ch.choose("factor", [1.0, 1.1])
            rad = band.radiances(150.0 + np.arange(2100) / 10 + 0.05) * factor
            lut = {"tb": 150.0 + np.arange(2100) / 10, "radiance": rad}
            got = calcs[85.0].reflectance_from_tbs(sunz, tb3, tb11, lut=lut)
            other = nir.Band(*CURVES["narrow"], flux=2.0 / factor)
            want, margin, _, _ = other.model(sunz, tb3, tb11)
            compare(got, want, margin, 1e-8, "own table")

        ctx.explore("tables", tables)

    ctx.assume("Pixels whose solar part is within 1e-4 of the documented margin are not judged.")
    ctx.assume("Brightness temperatures lie away from the edges of the table steps (0.02..0.08 K above a tenth).")
