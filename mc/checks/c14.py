"""C14: emissive part of the near-infrared band."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from mc import nir
from mc import world as w
from mc.checks.c13 import BAND, CURVES, INST, PLATFORM, make_store
from mc.core import check

SUNZ = [-5.0, 0.0, 35.0, 69.0, 79.5, 84.97, 85.03, 89.0, 120.0, np.nan]
TB3 = [100.02, 240.04, 285.03, 300.06, 335.02, 420.03, np.nan]
TB11 = [230.06, 280.02, 300.04, 330.05, np.nan]
GRID = np.array(list(itertools.product(SUNZ, TB3, TB11)))
INPUTS = {
    "grid": GRID,
    "reversed": GRID[::-1] + np.array([0.0, 1.0, -1.0]),
    "night": np.array([[100.0, 280.03, 285.04], [95.0, 270.02, 260.03], [110.0, np.nan, 260.03]]),
    "day": np.array([[20.0, 310.03, 285.04], [40.0, 320.02, 270.03]]),
}


def judge(got, want, refl, rad11, margin, tb_form, band, rtol, text):
    got = np.ravel(np.asarray(w.to_np(got), "f8"))
    check(got.shape == want.shape, "%s: shape %s instead of %s", text, got.shape, want.shape)
    skip = np.abs(margin) < 1e-4
    scale = np.abs(want) + np.where(np.isnan(refl), 0, np.abs(rad11 * refl) * (1 + 1 / np.maximum(np.abs(margin), 1e-3)))
    with np.errstate(all="ignore"):
        if not tb_form:
            bad = (np.isnan(got) != np.isnan(want)) | (np.abs(got - want) > rtol * scale)
        else:
            ideal = band.temperature(want)
            weak = np.abs(want) < 100 * rtol * scale
            skip |= weak
            positive = want > 0
            bad = np.where(positive, ~(np.abs(got - ideal) <= 5 * rtol * scale / np.abs(want) * ideal), ~np.isnan(got))
    bad &= ~skip
    if bad.any():
        pos = int(np.argmax(bad))
        check(False, "%s: pixel %d: %r instead of %r (reflectance %r)", text, pos, float(got[pos]),
              float((ideal if tb_form else want)[pos]), float(refl[pos]))


def wrap(arr, kind):
    if kind == "numpy":
        return arr
    if kind == "dask":
        return da.from_array(arr, chunks=max(1, len(arr) // 3))
    if kind == "xarray":
        return xr.DataArray(da.from_array(arr, chunks=max(1, len(arr) // 2)), dims=("x",))
    if kind == "2d":
        return arr.reshape((1, -1))
    return np.ma.masked_invalid(arr)


def run(ctx):
    from pyspectral.near_infrared_reflectance import Calculator

    limits = [None, (85.0, 88.0), (80.0, 85.0), (75.0, None), (70.0, 70.0)]
    kinds = ["numpy", "dask", "xarray", "2d", "masked"]

    memo = {}

    def expected(name, flux, lim, dtype, inp, co2):
        key = (name, flux, lim, dtype, inp, co2)
        if key not in memo:
            data = INPUTS[inp].astype(dtype)
            thr, mask = lim or (85.0, 85.0)
            band = bands[name, flux]
            refl, margin, rad11, rad3 = band.model(*data.T, co2=data[:, 2].astype("f8") - 22.5 if co2 else None,
                                                   threshold=thr, limit=mask)
            memo[key] = (refl, margin, rad11, band.emissive(refl, rad11, rad3))
        return memo[key]

    def apply(ch, calc, op, conf, cur):
        name, flux, lim, dtype = conf
        if op[0] == "refl":
            _, inp, co2, kind = op
            data = INPUTS[inp].astype(dtype)
            args = [wrap(np.ascontiguousarray(data[:, i]), kind) for i in range(3)]
            extra = {"tb_ir_co2": wrap((data[:, 2] - data.dtype.type(22.5)), kind)} if co2 else {}
            calc.reflectance_from_tbs(*args, **extra)
            return expected(name, flux, lim, dtype, inp, co2) + (op,)
        refl, margin, rad11, want, src = cur
        got = calc.emissive_part_3x() if op[0] == "default" else calc.emissive_part_3x(tb=op[0] == "tb")
        judge(got, want, refl, rad11, margin, op[0] != "rad", bands[name, flux], 3e-4 if dtype == "f4" else 1e-8,
              "%s after %s" % (op[0], src))
        check(got.dtype == np.dtype(dtype) or src[3] == "masked", "type %s", got.dtype)
        ch.count(want.size)
        ch.state(conf, src, op)
        return cur

    bands = {(name, flux): nir.Band(*CURVES[name], flux=flux) for name in CURVES for flux in (2.0, 8.0)}

    ops = [("tb",), ("rad",), ("default",)]

    def pixels(ch):
        conf = (ch.choose("curve", ["narrow", "wide"]), ch.choose("flux", [2.0, 8.0]), ch.choose("limits", limits),
                ch.choose("dtype", ["f8", "f4"]))
        some = kinds if ctx.thorough or conf[:3] == ("narrow", 2.0, None) else ["numpy"]
        op = ch.choose("inputs", [("refl", inp, co2, kind) for inp in INPUTS for co2 in (False, True) for kind in some])
        with make_store(CURVES[conf[0]]):
            lim = conf[2]
            kwargs = {} if lim is None else {"sunz_threshold": lim[0], "masking_limit": lim[1]}
            calc = Calculator(PLATFORM, INST, BAND, solar_flux=conf[1], **kwargs)
            cur = apply(ch, calc, op, conf, None)
            for num in range(2):
                apply(ch, calc, ch.choose("ask%d" % num, ops), conf, cur)

    ctx.explore("pixels", pixels, workers=8, split=4)

    def histories(ch):
        conf = ("narrow", 2.0, ch.choose("limits", limits[:1] if not ctx.thorough else limits), "f8")
        refls = [("refl", inp, co2, "numpy") for inp in ("grid", "night", "day") for co2 in (False, True)]
        with make_store(CURVES["narrow"]):
            lim = conf[2]
            kwargs = {} if lim is None else {"sunz_threshold": lim[0], "masking_limit": lim[1]}
            calc = Calculator(PLATFORM, INST, BAND, solar_flux=2.0, **kwargs)
            cur = apply(ch, calc, ch.choose("first", refls), conf, None)
            for step in range(ctx.pick(2, 4)):
                cur = apply(ch, calc, ch.choose("op%d" % step, ops[:2] + refls), conf, cur)
            apply(ch, calc, ch.choose("last", ops[:2]), conf, cur)

    ctx.explore("histories", histories, workers=8, split=3)

    # one pixel among others of another kind
    mixed = np.array([[20.0, 310.03, 290.02], [50.0, 280.03, 290.02], [86.0, 305.02, 280.02], [120.0, 290.03, 280.02],
                      [-1.0, 300.06, 290.03], [30.0, np.nan, 285.02], [30.0, 300.03, np.nan], [np.nan, 300.03, 285.02],
                      [30.0, 380.03, 285.02], [100.0, np.nan, 285.02], [30.0, 300.03, 340.02]])
    calcs = w.PerProcess(lambda key: Calculator(PLATFORM, INST, BAND, solar_flux=2.0))

    def company(ch):
        idx = w.company(ch, mixed)
        arrs = [np.ascontiguousarray(mixed[idx, i]) for i in range(3)]
        band = bands["narrow", 2.0]
        refl, margin, rad11, rad3 = band.model(*arrs)
        want = band.emissive(refl, rad11, rad3)
        for kind in ("numpy", "dask"):
            calcs[0].reflectance_from_tbs(*[wrap(a, kind) for a in arrs])
            for form in (True, False):
                judge(calcs[0].emissive_part_3x(tb=form), want, refl, rad11, margin, form, band, 1e-8,
                      "%s %s" % (kind, idx[[0, 1, -1]]))
                ch.count(want.size)
        ch.state(idx[0], idx[1], idx[-1])

    with make_store(CURVES["narrow"]):
        ctx.explore("company", company, workers=8, split=2)

    # the parts refer to the calculator's own last reflectance, not to that of another one
    def others(ch):
        order = ch.choose("order", list(itertools.permutations(["a", "b", "c"])))
        ask = ch.choose("ask", list(itertools.permutations(["a", "b", "c"])))
        form = ch.flag("tb")
        with make_store(CURVES["narrow"]):
            calcs, cur = {}, {}
            for num, name in enumerate("abc"):
                calcs[name] = Calculator(PLATFORM, INST, BAND, solar_flux=(2.0, 8.0, 2.0)[num])
            for name in order:
                num = "abc".index(name)
                data = INPUTS[("grid", "reversed", "day")[num]]
                band = bands["narrow", (2.0, 8.0, 2.0)[num]]
                calcs[name].reflectance_from_tbs(*data.T)
                refl, margin, rad11, rad3 = band.model(*data.T)
                cur[name] = (refl, margin, rad11, band.emissive(refl, rad11, rad3), band)
            for name in ask:
                refl, margin, rad11, want, band = cur[name]
                judge(calcs[name].emissive_part_3x(tb=form), want, refl, rad11, margin, form, band, 1e-8, "calculator " + name)
                ch.count(want.size)

    ctx.explore("others", others, workers=8, split=2)
    ctx.assume("Pixels whose solar part is within 1e-4 of the documented margin, and temperatures of radiances that almost "
               "vanish, are not judged.")

