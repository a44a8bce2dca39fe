"""C17: reduction of the Rayleigh correction at high zenith angles."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from mc import world as w
from mc.core import check

LIMITS = [(70.0, 90.0), (30.0, 90.0), (0.0, 60.0), (70.0, 70.5), (-10.0, 10.0), (85.0, 105.0), (70, 90)]
STRENGTHS = [0.0, 0.25, 0.5, 1.0, 1.5, 3.0, 1]
VALUES = [0.0, 0.3, 17.5, np.nan, 100.0]


def angles(thr, top):
    mid = (thr + top) / 2
    base = [-20.0, 0.0, 15.0, 29.9, 30.1, 45.0, 60.0, 69.9, 70.25, 80.0, 89.0, 90.0, 100.0, 150.0, 180.0]
    return np.array(sorted(set(base + [float(thr), float(top), thr - 0.01, thr + 0.01, top - 0.01, top + 0.01, mid])) + [np.nan])


def model(zen, ray, thr, top, strength):
    zen, ray = np.asarray(zen, "f8"), np.asarray(ray, "f8")
    ramp = np.where(zen <= thr, 0.0, (zen - thr) / float(top - thr))
    return ray * np.clip(1 - strength * ramp, 0, 1)


def wrap(arr, kind, chunks=None):
    if kind == "dask":
        return da.from_array(arr, chunks=chunks or 7)
    if kind == "xarray":
        return xr.DataArray(arr, dims=("y", "x")[2 - arr.ndim:])
    if kind == "xarray-dask":
        return xr.DataArray(da.from_array(arr, chunks=5), dims=("y", "x")[2 - arr.ndim:])
    return arr


def run(ctx):
    from pyspectral.rayleigh import Rayleigh

    def ramp(ch):
        thr, top = ch.choose("limits", LIMITS)
        strength = ch.choose("strength", STRENGTHS)
        dtype = ch.choose("dtype", ["f8", "f4"])
        kind = ch.choose("container", ["numpy", "dask", "xarray", "xarray-dask"])
        shape = ch.choose("shape", ["1d", "2d"])
        layout = ch.choose("layout", ["C", "F", "strided"])
        grid = np.array(list(itertools.product(angles(thr, top), VALUES)), dtype)
        if shape == "2d":
            grid = grid[:len(grid) // 4 * 4]
        arrs = []
        for i in range(2):
            arr = grid[:, i]
            if shape == "2d":
                arr = arr.reshape((4, -1))
            if layout == "F":
                arr = np.asfortranarray(arr)
            elif layout == "C":
                arr = np.ascontiguousarray(arr)
            arrs.append(arr)
        zen, ray = arrs
        keep = [zen.copy(), ray.copy()]
        zen.setflags(write=False)
        ray.setflags(write=False)
        one, two = wrap(zen, kind), wrap(ray, kind)
        call = ch.choose("call", ["static", "keywords"])
        if call == "static":
            got = Rayleigh.reduce_rayleigh_highzenith(one, two, thr, top, strength)
        else:
            got = Rayleigh.reduce_rayleigh_highzenith(zenith=one, rayref=two, thresh_zen=thr, maxzen=top, strength=strength)
        check(type(got) is type(two), "%s became %s", type(two), type(got))
        if kind == "xarray-dask":
            check(isinstance(got.data, da.Array), "evaluated")
        vals = w.to_np(got)
        want = model(*keep, thr, top, strength)
        check(vals.dtype == np.dtype(dtype), "type %s instead of %s", vals.dtype, dtype)
        # one rounding of the angle may be magnified by the slope
        atol = 1e-10 if dtype == "f8" else 1e-5 * (1 + 100 * strength * 180 / (top - thr) * 1e-1)
        check(w.close(vals, want, 1e-12, atol), "limits %s strength %s: %s", (thr, top), strength, w.worst(vals, want))
        check(bool(np.all((vals >= 0) & (vals <= keep[1]) | np.isnan(want))), "negative or enlarged")
        check(np.array_equal(zen, keep[0], equal_nan=True) and np.array_equal(ray, keep[1], equal_nan=True), "inputs changed")
        ch.count(vals.size)
        ch.state(thr, top, strength, kind, bool(np.any(want == 0)), bool(np.any(want == keep[1])))

    ctx.explore("ramp", ramp, workers=8, split=3)

    # one pixel among others of another kind
    kinds = np.array([[10.0, 5.0], [70.0, 5.0], [71.0, 20.0], [85.0, 40.0], [90.0, 40.0], [97.0, 3.0], [np.nan, 7.0], [85.0, np.nan],
                      [80.0, 0.0], [180.0, 100.0], [-5.0, 100.0]])

    def company(ch):
        strength = ch.choose("strength", [0.5, 1.0, 3.0])
        idx = w.company(ch, kinds)
        arrs = [np.ascontiguousarray(kinds[idx, i]) for i in range(2)]
        want = model(*arrs, 70.0, 90.0, strength)
        for kind in ("numpy", "dask", "xarray"):
            got = Rayleigh.reduce_rayleigh_highzenith(*[wrap(a, kind, 10) for a in arrs], 70.0, 90.0, strength)
            check(w.close(w.to_np(got), want, 1e-12, 1e-12), "%s %s: %s", kind, idx[[0, 1, -1]], w.worst(w.to_np(got), want))
            ch.count(want.size)
        ch.state(strength, idx[0], idx[1], idx[-1])

    ctx.explore("company", company, workers=4, split=2)

    # the angles of a plain array with a delayed correction and vice versa; every chunking
    def mixed(ch):
        kinds = ch.choose("kinds", [("numpy", "dask"), ("dask", "numpy"), ("dask", "dask"), ("numpy", "xarray"),
                                    ("scalar", "numpy"), ("scalar", "dask")])
        size = 6
        chunks = ch.choose("chunks", w.chunkings(size))
        other = ch.choose("other", w.chunkings(size)[::3] if "numpy" not in kinds and "scalar" not in kinds else [chunks])
        strength = ch.choose("strength", [0.5, 1.0, 1.5])
        zen = np.array([10.0, 69.0, 72.0, 80.0, 89.5, 95.0])
        ray = np.array([5.0, 10.0, 20.0, 0.0, 50.0, 100.0])
        one = zen if kinds[0] == "numpy" else 80.0 if kinds[0] == "scalar" else da.from_array(zen, chunks=(chunks,))
        two = ray if kinds[1] == "numpy" else wrap(ray, "xarray") if kinds[1] == "xarray" else da.from_array(ray, chunks=(other,))
        got = Rayleigh.reduce_rayleigh_highzenith(one, two, 70.0, 90.0, strength)
        check(("dask" in kinds) == isinstance(got, da.Array), "%s gave %s", kinds, type(got))
        want = model(zen if kinds[0] != "scalar" else np.full(6, 80.0), ray, 70.0, 90.0, strength)
        check(w.close(w.to_np(got), want, 1e-12, 1e-12), "%s: %s", kinds, w.worst(w.to_np(got), want))

    ctx.explore("mixed", mixed, workers=4, split=2)
    ctx.assume("Angles and correction have the same element type.")
