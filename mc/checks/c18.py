"""C18: in-band solar flux."""
import itertools
import os

import numpy as np

from mc import world as w
from mc.core import check
from mc.env import REPO

SPECTRUM = os.path.join(REPO, "pyspectral", "data", "e490_00a.dat")
_CACHE = {}


def spectrum(space):
    if space not in _CACHE:
        from scipy.interpolate import make_interp_spline
        wvl, irr = np.loadtxt(SPECTRUM, comments="#", unpack=True)
        if space == "wavenumber":
            wvl, irr = 1e4 / wvl[::-1], (irr * wvl ** 2 * 0.1)[::-1]
        _CACHE[space] = (wvl, irr, make_interp_spline(wvl, irr, k=3))
    return _CACHE[space]


def flux_reference(wave, resp, step, space="wavelength", irradiance=False):
    from scipy.interpolate import make_interp_spline
    wave = np.asarray(wave, "f8")
    grid = np.linspace(wave[0], wave[-1], int(round((wave[-1] - wave[0]) / step)) + 1)
    res = make_interp_spline(wave, np.asarray(resp, "f8"), k=3)(grid)
    flux = w.trapz(spectrum(space)[2](grid) * res, grid)
    return flux / w.trapz(res, grid) if irradiance else flux


def smooth(center, width, num, skew=0.0):
    wvl = np.linspace(center - 2 * width, center + 2 * width, num)
    x = (wvl - center) / width
    return wvl, np.exp(-x ** 2) * (1 + skew * x / 3)


CURVES = {"nir": smooth(3.75, 0.12, 31), "vis": smooth(0.63, 0.03, 41, 0.5), "wide": smooth(1.6, 0.2, 25, -0.4),
          "edgy": w.tri_band(3.9, 0.2, 12, skew=0.4), "box": (np.linspace(0.8, 0.9, 21), np.r_[0.0, 0.5, np.ones(17), 0.5, 0.0])}


def table(curves, space, factor=1.0, scale=1.0):
    wvl, resp = curves
    if space == "wavelength":
        return {"wavelength": wvl / scale, "response": resp * factor}
    return {"wavenumber": 1e4 / wvl[::-1] / scale, "response": resp[::-1] * factor}


def run(ctx):
    from pyspectral.solar import SolarIrradianceSpectrum

    def step_of(space, step):
        return step if step is not None else (0.005 if space == "wavelength" else 2.0)

    def make(space, step, explicit=True):
        kwargs = {}
        if step is not None:
            kwargs["dlambda"] = step
        if space == "wavenumber" or explicit:
            kwargs["wavespace"] = space
        return SolarIrradianceSpectrum(**kwargs)

    steps = {"wavelength": [None, 0.0005, 0.001, 0.02], "wavenumber": [None, 0.5, 4.0]}

    # ---- values
    def values(ch):
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        step = ch.choose("dlambda", steps[space])
        name = ch.choose("curve", list(CURVES))
        scale = ch.choose("scale", [1.0, 1e-3])
        dtype = ch.choose("dtype", ["f8", "f4"])
        sol = make(space, step, explicit=scale == 1.0)
        base = table(CURVES[name], space)
        key = space
        for factor in (1.0, 2.0, 0.25):
            rsr = {k: v.astype(dtype) for k, v in table(CURVES[name], space, factor, scale).items()}
            wave = base[key]
            want = flux_reference(wave, rsr["response"], step_of(space, step), space)
            irr = flux_reference(wave, rsr["response"], step_of(space, step), space, True)
            rtol = 1e-3 if dtype == "f4" else 1e-8
            kwargs = {"scale": scale} if scale != 1.0 else {}
            for form, more in ((rsr, {}), ({"det-1": rsr, "det-2": table(CURVES["vis"], space)}, {}),
                               ({"det-1": table(CURVES["vis"], space), "det-2": rsr}, {"detector": 2}),
                               ({"det-1": table(CURVES["vis"], space), "det-3": rsr, "det-2": table(CURVES["box"], space)},
                                {"detector": 3})):
                got = sol.inband_solarflux(form, **kwargs, **more)
                check(abs(got - want) < rtol * want, "flux %r instead of %r", got, want)
                got = sol.inband_solarirradiance(form, **kwargs, **more)
                check(abs(got - irr) < rtol * irr, "irradiance %r instead of %r", got, irr)
                ch.count(2)
        # flux is linear, irradiance independent of the factor
        one, two = [sol.inband_solarflux(table(CURVES[name], space, f)) for f in (1.0, 3.0)]
        check(abs(two - 3 * one) < 1e-9 * two, "flux not linear in the response")
        one, two = [sol.inband_solarirradiance(table(CURVES[name], space, f)) for f in (1.0, 3.0)]
        check(abs(two - one) < 1e-9 * two, "irradiance depends on the size of the response")
        ch.state(space, step, name)

    ctx.explore("values", values, workers=8, split=2)

    def representations(ch):
        name = ch.choose("curve", [c for c in CURVES if c not in ("edgy", "box")])
        length = make("wavelength", 0.0005)
        number = make("wavenumber", 0.5)
        one = length.inband_solarflux(table(CURVES[name], "wavelength"))
        two = number.inband_solarflux(table(CURVES[name], "wavenumber"))
        check(abs(two / 1000.0 - one) < 3e-3 * one, "flux %r W/m2 by wavelength, %r mW/m2 by wavenumber", one, two)
        check(abs(length.solar_constant() - 1366.1) < 1.0, "solar constant %r", length.solar_constant())
        check(abs(number.solar_constant() / 1000 - length.solar_constant()) < 0.2, "solar constant %r by wavenumber",
              number.solar_constant())
        # a converted spectrum is the same as one created in the other representation
        conv = make("wavelength", 0.0005)
        conv.convert2wavenumber()
        check(w.close(conv.wavenumber, number.wavenumber, 1e-12) and w.close(conv.irradiance, number.irradiance, 1e-12),
              "converted spectrum differs")
        check(w.close(number.wavenumber, spectrum("wavenumber")[0], 1e-9) and
              w.close(number.irradiance, spectrum("wavenumber")[1], 1e-9), "spectrum by wavenumber")
        check(w.close(length.wavelength, spectrum("wavelength")[0], 1e-12) and
              w.close(length.irradiance, spectrum("wavelength")[1], 1e-12), "spectrum by wavelength")
        check(abs(conv.solar_constant() - number.solar_constant()) < 1e-6, "solar constant after conversion")
        ch.count(5)

    ctx.explore("representations", representations)

    # ---- histories
    a, b = CURVES["nir"], CURVES["vis"]
    OPS = ["flux nir", "irradiance nir", "flux vis", "flux vis det2", "solar constant", "interpolate", "interpolate fine",
           "interpolate coarse", "interpolate part", "flux scaled"]

    def histories(ch):
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        step = ch.choose("dlambda", [None, 0.001 if space == "wavelength" else 1.0])
        sol = make(space, step)
        res = step_of(space, step)
        fine, coarse = (0.0007, 0.05) if space == "wavelength" else (0.3, 20.0)
        ta, tb = table(a, space), table(b, space)
        for num in range(depth):
            op = ch.choose("op", OPS)
            text = "step %d %s" % (num + 1, op)
            if op == "solar constant":
                got, want = sol.solar_constant(), w.trapz(*spectrum(space)[:2][::-1])
            elif op.startswith("interpolate"):
                kwargs = {"interpolate": {}, "interpolate fine": dict(dlambda=fine),
                          "interpolate coarse": dict(dlambda=coarse), "interpolate part": {}}[op]
                part = (ta[space][0], ta[space][-1])
                if op != "interpolate":         # the whole spectrum
                    kwargs["ival_wavelength"] = part if op != "interpolate fine" else (tb[space][0], tb[space][-1])
                sol.interpolate(**kwargs)
                start, end = kwargs.get("ival_wavelength", (spectrum(space)[0][0], spectrum(space)[0][-1]))
                grid = np.linspace(start, end, int(round((end - start) / kwargs.get("dlambda", res))) + 1)
                check(w.close(sol.ipol_wavelength, grid, 1e-9), "%s: %s points instead of %s", text,
                      np.shape(sol.ipol_wavelength), grid.shape)
                check(w.close(sol.ipol_irradiance, spectrum(space)[2](grid), 1e-7, 1e-9), "%s: interpolated values", text)
                got = want = 1.0
            elif op == "irradiance nir":
                got, want = sol.inband_solarirradiance(ta), refs[space, res]["ia"]
            elif op == "flux nir":
                got, want = sol.inband_solarflux(ta), refs[space, res]["a"]
            elif op == "flux vis":
                got, want = sol.inband_solarflux({"det-1": tb, "det-2": ta}), refs[space, res]["b"]
            elif op == "flux vis det2":
                got, want = sol.inband_solarflux({"det-1": ta, "det-2": tb}, detector=2), refs[space, res]["b"]
            else:
                got, want = sol.inband_solarflux(table(a, space, 1.0, 1e-3), scale=1e-3), refs[space, res]["a"]
            check(abs(got - want) < 1e-8 * abs(want), "%s: %r instead of %r", text, got, want)
            ch.state(space, step, op)
            ch.count(1)

    refs = {}
    for space, step in itertools.product(["wavelength", "wavenumber"], [None, 0.001, 1.0]):
        res = step_of(space, step)
        ta, tb = table(a, space), table(b, space)
        if (space, step) in (("wavelength", 1.0), ("wavenumber", 0.001)):
            continue
        refs[space, res] = {"a": flux_reference(ta[space], ta["response"], res, space),
                            "ia": flux_reference(ta[space], ta["response"], res, space, True),
                            "b": flux_reference(tb[space], tb["response"], res, space)}
    depth = ctx.pick(3, 4)
    ctx.explore("histories", histories, workers=8, split=3)

    def independent(ch):
        """Two objects do not influence each other."""
        first = ch.choose("first", ["wavelength", "wavenumber"])
        second = ch.choose("second", ["wavelength", "wavenumber"])
        order = ch.choose("order", list(itertools.permutations(range(4))))
        objs = [make(first, None), make(second, steps[second][1])]
        for num in order:
            space, res = (first, step_of(first, None)) if num % 2 == 0 else (second, steps[second][1])
            wave = table(a, space)
            if num > 1:
                objs[num % 2].interpolate(dlambda=res * 3, ival_wavelength=(wave[space][0], wave[space][-1]))
            got = objs[num % 2].inband_solarflux(wave)
            want = flux_reference(wave[space], wave["response"], res, space)
            check(abs(got - want) < 1e-8 * want, "%r instead of %r", got, want)
            ch.count(1)

    ctx.explore("independent", independent)
