"""C22: spectral shape measures, on all small response curves."""
import itertools

import numpy as np

from mc import world as w
from mc.core import check


def raises(func):
    try:
        func()
    except Exception:
        return True
    return False


def run(ctx):
    from pyspectral import utils

    def sort_data(ch):
        size = ch.choose("size", range(1, ctx.pick(6, 7)))
        dtype = ch.choose("dtype", ["f8", "f4"])
        first = ch.choose("first", [1, 2, 3, 4])
        unit = ch.choose("unit", [0.5, 2e-10, 512.0])      # as far apart as samples in metres may be
        vals = [1, 2, 3, 4] if size <= 5 else [1, 2, 3]
        for rest in itertools.product(vals, repeat=size - 1):
            xin = np.array((first,) + rest, dtype) * np.dtype(dtype).type(unit)
            yin = np.arange(1, size + 1).astype(dtype)
            xcp, ycp = xin.copy(), yin.copy()
            xout, yout = utils.sort_data(xin, yin)
            pairs = {}
            for xval, yval in zip(xcp, ycp):
                pairs.setdefault(float(xval), set()).add(float(yval))
            check(len(xout) == len(yout), "lengths differ for %s", xcp)
            check([float(x) for x in xout] == sorted(pairs), "%s sorted gives %s", xcp, xout)
            for xval, yval in zip(xout, yout):
                check(float(yval) in pairs[float(xval)], "%s paired with foreign response %s: %s", xval, yval, xcp)
            check((xin == xcp).all() and (yin == ycp).all(), "inputs changed")
            check(xout.dtype == xcp.dtype and yout.dtype == ycp.dtype, "element types changed")
            ch.count(1)

    ctx.explore("sort", sort_data)

    resp_vals = [0.0, 0.1, 0.15, 0.3, 0.5, 1.0]

    def measures(ch):
        size = ch.choose("size", range(1, 6))
        dtype = ch.choose("dtype", ["f8", "f4"])
        first = ch.choose("first", resp_vals)
        spacing = ch.choose("spacing", ["even", "uneven"])
        scale = ch.choose("scale", [1.0, 1000.0])
        wvl = np.array([0.5, 0.625, 0.75, 1.0, 1.0625] if spacing == "uneven" else [0.5, 0.625, 0.75, 0.875, 1.0])
        wvl = (wvl[:size] * scale).astype(dtype)
        wvl64 = wvl.astype("f8")
        for rest in itertools.product(resp_vals, repeat=size - 1):
            resp = np.array((first,) + rest, dtype)
            r64 = resp.astype("f8")
            wcp, rcp = wvl.copy(), resp.copy()
            tol = 1e-9 if dtype == "f8" else 1e-4
            area = w.trapz(r64, wvl64)
            if area > 0:
                for weight in (None, 2.0, 1.0 / wvl64 ** 4, (1.0 / wvl ** 4).astype(dtype)):
                    args = () if weight is None else (weight,)
                    got = utils.get_central_wave(wvl, resp, *args)
                    want = w.central(wvl64, r64, 1.0 if weight is None else np.asarray(weight, "f8"))
                    check(abs(got - want) <= tol * abs(want), "central wavelength %r instead of %r for %s weight %s", got, want,
                          resp, weight)
                got = utils.get_central_wave(wvl, resp, weight=2.0)
                check(abs(got - w.central(wvl64, r64)) <= tol * abs(want), "constant weight matters: %s", resp)
            for thr in (None, 0.0, 0.15, 0.2, 0.5, 0.99):
                lim = 0.15 if thr is None else thr
                lim = np.dtype(dtype).type(lim) if dtype == "f4" else lim
                above = np.nonzero(resp > lim)[0]
                chan = {"wavelength": wvl, "response": resp, "central_wavelength": 99.0}
                call = (lambda: utils.get_wave_range(chan)) if thr is None else (
                    lambda: utils.get_wave_range(chan, thr))
                if len(above) == 0:
                    check(raises(call), "no sample of %s above %s but a range was given", resp, lim)
                elif area > 0:
                    got = call()
                    check(len(got) == 3, "range %s", got)
                    want = [wvl64[above[0]], w.central(wvl64, r64), wvl64[above[-1]]]
                    check(w.close(got, want, rtol=tol), "range %s instead of %s for %s above %s", got, want, resp, lim)
            half = np.nonzero(resp >= 0.5)[0]
            if len(half) < 2:
                err = None
                try:
                    utils.get_fullwidth_halfmax(resp, wvl)
                except ValueError as exc:
                    err = exc
                check(err is not None, "width of %s given although undefined", resp)
            else:
                got = utils.get_fullwidth_halfmax(resp, wvl)
                want = wvl64[half[-1]] - wvl64[half[0]]
                check(abs(got - want) <= tol * scale, "width %r instead of %r for %s", got, want, resp)
            for lim in (None, 1, 5, 10, 25, 40):
                _bounds(utils, resp, wvl, r64, wvl64, lim, dtype)
            check((wvl == wcp).all() and (resp == rcp).all(), "inputs changed")
            ch.count(6)

    ctx.explore("measures", measures, workers=8, split=3)


def _bounds(utils, resp, wvl, r64, wvl64, lim, dtype):
    args = () if lim is None else (lim,)
    val = 1 if lim is None else lim
    eps = 1e-9 if dtype == "f8" else 1e-3
    total = r64.sum()
    if total <= 0:
        check(raises(lambda: utils.get_bounds_integrated_energy(resp, wvl, *args)), "bounds of zero energy given")
        return
    cum = np.cumsum(r64) / total * 100
    lows = {wvl64[np.nonzero(cum >= val - eps)[0][0]], wvl64[np.nonzero(cum >= val + eps)[0][0]]}
    highs = set()
    for margin in (eps, -eps):
        idx = np.nonzero(cum <= 100 - val + margin)[0]
        highs.add(wvl64[idx[-1]] if len(idx) else None)
    try:
        low, high = utils.get_bounds_integrated_energy(resp, wvl, *args)
    except IndexError:
        check(None in highs, "bounds of %s at %s percent not given", resp, val)
        return
    check(float(low) in lows and high is not None and float(high) in highs,
          "bounds (%r, %r) instead of (%s, %s) for %s at %s percent", low, high, lows, highs, resp, val)
