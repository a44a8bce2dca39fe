"""C08: wavenumber conversion."""
import copy

import numpy as np

from mc import world as w
from mc.core import check

BANDS = ["ch1", "ch3b", "ch4"]


def bands(dtype):
    out = {}
    for bnum, (name, center) in enumerate(zip(BANDS, [0.63, 3.75, 10.8])):
        out[name] = {}
        for dnum in range(1 + (bnum + 1) % 3):
            wvl, resp = w.tri_band(center + 0.01 * dnum, 0.2, 6 + 3 * bnum + dnum, skew=0.3 - 0.2 * dnum)
            wvl = wvl + 0.01 * np.sin(np.arange(wvl.size))      # uneven
            wvl = np.sort(wvl)
            resp[[0, -2]] = -0.004, 1.25                         # noise, not normalised
            out[name]["det-%d" % (dnum + 1)] = (wvl.astype(dtype), resp.astype(dtype))
    return out


def snapshot(rsr):
    return {b: {d: {k: np.array(v, copy=True) for k, v in dets[d].items()} for d in dets} for b, dets in rsr.items()}


def equal(one, two):
    if sorted(one) != sorted(two):
        return False
    for b in one:
        if sorted(one[b]) != sorted(two[b]):
            return False
        for d in one[b]:
            if sorted(one[b][d]) != sorted(two[b][d]):
                return False
            for k in one[b][d]:
                if not np.array_equal(np.asarray(one[b][d][k]), np.asarray(two[b][d][k])):
                    return False
    return True


def run(ctx):
    from pyspectral import utils
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rsr_reader import RelativeSpectralResponse

    def verify_wn(rsr, data, rtol, text):
        check(sorted(rsr) == sorted(data), "%s: bands %s", text, sorted(rsr))
        for b in data:
            check(sorted(rsr[b]) == sorted(data[b]), "%s: detectors of %s: %s", text, b, sorted(rsr[b]))
            for d, (wvl, resp) in data[b].items():
                got = rsr[b][d]
                check("wavelength" not in got, "%s: wavelengths left in %s %s", text, b, d)
                check(np.shape(got["wavenumber"]) == wvl.shape and np.shape(got["response"]) == wvl.shape,
                      "%s: %s %s has %s samples instead of %s", text, b, d, np.shape(got["response"]), wvl.shape)
                check(w.close(got["wavenumber"], 1e4 / wvl.astype("f8")[::-1], rtol), "%s: wavenumbers of %s %s: %s", text, b,
                      d, w.worst(got["wavenumber"], 1e4 / wvl[::-1]))
                check(w.close(got["response"], resp[::-1], rtol), "%s: responses of %s %s", text, b, d)

    def verify(obj, conv, data, rtol, text):
        if not conv:
            check(obj.unit == "1e-6 m" and obj.si_scale == 1e-6, "%s: unit %s scale %s", text, obj.unit, obj.si_scale)
            check(sorted(obj.rsr) == sorted(data), "%s: bands", text)
            for b in data:
                check(sorted(obj.rsr[b]) == sorted(data[b]), "%s: detectors of %s", text, b)
                for d, (wvl, resp) in data[b].items():
                    got = obj.rsr[b][d]
                    check("wavenumber" not in got, "%s: wavenumbers in %s %s", text, b, d)
                    check(w.close(got["wavelength"], wvl, rtol) and w.close(got["response"], resp, rtol),
                          "%s: data of %s %s changed", text, b, d)
                    check(abs(got["central_wavelength"] - w.central(wvl, resp)) < 1e-5, "%s: centre of %s %s", text, b, d)
        else:
            check(obj.unit == "cm-1" and obj.si_scale == 100.0, "%s: unit %s scale %s", text, obj.unit, obj.si_scale)
            verify_wn(obj.rsr, data, rtol, text)
            for b in data:
                for d, (wvl, resp) in data[b].items():
                    want = w.central(1e4 / wvl.astype("f8")[::-1], resp[::-1])
                    got = obj.rsr[b][d]["central_wavenumber"]
                    check(abs(got - want) < 1e-4 * want, "%s: central wavenumber of %s %s is %r not %r", text, b, d, got, want)

    OPS = ["convert0", "convert1", "integral0", "integral1", "function0", "function1", "lookup0", "converter", "reopen"]

    def histories(ch):
        dtype = ch.choose("dtype", ["f4", "f8"])
        data = bands(dtype)
        rtol = 2e-6 if dtype == "f4" else 1e-10
        with w.Store() as store:
            store.current()
            path = store.rsr_path("avhrr3", "NOAA-19")
            w.write_rsr(path, data, "NOAA-19", "avhrr/3", dtype=dtype)
            objs = [RelativeSpectralResponse("NOAA-19", "avhrr/3"), RelativeSpectralResponse(filename=path)]
            conv = [False, False]
            kept = []
            for step in range(depth):
                op = ch.choose("op", OPS)
                num = 1 if op.endswith("1") else 0
                obj = objs[num]
                text = "after step %d (%s)" % (step + 1, op)
                if op.startswith("convert") and op != "converter":
                    try:
                        obj.convert()
                        refused = False
                    except NotImplementedError:
                        refused = True
                    check(refused == conv[num], "%s: conversion %s", text, "refused" if refused else "repeated")
                    conv[num] = True
                elif op.startswith("integral"):
                    for b in data:
                        got = obj.integral(b)
                        check(sorted(got) == sorted(data[b]), "%s: integral of detectors %s", text, sorted(got))
                        for d, (wvl, resp) in data[b].items():
                            want = (w.trapz(resp[::-1], 1e4 / wvl.astype("f8")[::-1]) if conv[num] else w.trapz(resp, wvl))
                            check(abs(got[d] - want) < 1e-4 * abs(want), "%s: integral of %s %s is %r instead of %r", text, b,
                                  d, got[d], want)
                elif op.startswith("function"):
                    res, info = utils.convert2wavenumber(obj.rsr)
                    check(info["unit"] == "cm-1" and info["si_scale"] == 100.0, "%s: %s", text, info)
                    verify_wn(res, data, rtol, text)
                    kept.append((res, snapshot(res)))
                elif op.startswith("lookup"):
                    for b in data:
                        got = obj.get_bandname_from_wavelength(w.central(*data[b]["det-1"]))
                        check(got == b, "%s: lookup of %s gives %s", text, b, got)
                        check(len(obj.rsr[b.replace("ch", "")]) == len(data[b]), "%s: alias of %s", text, b)
                elif op == "converter":
                    for b in BANDS[1:]:
                        conv_ = RadTbConverter("NOAA-19", "avhrr/3", b, wavespace="wavenumber")
                        wvl, resp = data[b]["det-1"]
                        check(w.close(conv_.wavelength_or_wavenumber, 1e6 / wvl.astype("f8")[::-1], rtol) and
                              w.close(conv_.response, resp[::-1], rtol), "%s: converter has other data", text)
                else:
                    objs[0] = RelativeSpectralResponse("NOAA-19", "avhrr/3")
                    conv[0] = False
                for i in (0, 1):
                    verify(objs[i], conv[i], data, rtol, text)
                for res, snap in kept:
                    check(equal(res, snap), "%s: an earlier result changed", text)
                ch.state(dtype, tuple(conv), len(kept))
                ch.count(1)

    depth = ctx.pick(3, 4)
    ctx.explore("histories", histories, workers=8, split=2)

    # ---- the function on tables of its own making, also partly converted ones
    def function(ch):
        names = ch.choose("bands", [["a"], ["a", "b"], ["b", "a", "c"], []])
        ndet = ch.choose("detectors", [1, 2, 3])
        size = ch.choose("samples", [1, 2, 3, 7])
        dtype = ch.choose("dtype", ["f4", "f8"])
        order = ch.choose("order", ["up", "down"])
        mixed = ch.flag("mixed")
        nested = ch.flag("nested")
        data, table = {}, {}
        for bnum, b in enumerate(names):
            data[b], table[b] = {}, {}
            for d in range(ndet):
                wvl = (0.4 + bnum * 3 + 0.05 * d + np.cumsum(0.1 + 0.03 * np.arange(size))).astype(dtype)
                resp = (1.0 / (1 + np.arange(size) + d)).astype(dtype)
                if order == "down":
                    wvl, resp = wvl[::-1], resp[::-1]
                data[b]["det-%d" % (d + 1)] = (wvl, resp)
                entry = {"wavelength": wvl.copy(), "response": resp.copy(), "central_wavelength": 1.0}
                if nested:
                    entry["response"] = {"95": resp.copy(), "85": resp.copy() * 2}
                if mixed and d == 0 and not nested:
                    entry = {"wavenumber": 1e4 / wvl[::-1], "response": resp[::-1].copy()}
                table[b]["det-%d" % (d + 1)] = entry
        before = copy.deepcopy(table)
        res, info = utils.convert2wavenumber(table)
        check(info == {"unit": "cm-1", "si_scale": 100.0}, "%s", info)
        if nested:
            for b in data:
                for d in data[b]:
                    got = res[b][d]
                    check(w.close(got["wavenumber"], 1e4 / data[b][d][0][::-1], 1e-6), "wavenumbers")
                    check(w.close(got["response"]["95"], data[b][d][1][::-1], 1e-9) and
                          w.close(got["response"]["85"], 2 * data[b][d][1][::-1], 1e-9), "responses by temperature")
        else:
            verify_wn(res, data, 1e-6 if dtype == "f4" else 1e-12, "function")
        for b in before:
            for d in before[b]:
                check(sorted(before[b][d]) == sorted(table[b][d]), "input keys changed")
                for k in before[b][d]:
                    one, two = before[b][d][k], table[b][d][k]
                    for key in (one if isinstance(one, dict) else [None]):
                        check(np.array_equal(one[key] if key else one, two[key] if key else two), "input changed: %s", k)
        ch.count(len(names) * ndet)

    ctx.explore("function", function)
