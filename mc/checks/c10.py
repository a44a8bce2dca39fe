"""C10: Planck function and its inverse."""
import dask.array as da
import numpy as np
import xarray as xr

from mc import world as w
from mc.core import Prune, check

TEMPS = [1.0, 90.0, 150.0, 199.99, 273.15, 300.0, 360.0, 1000.0, 5800.0]


def run(ctx):
    from pyspectral import blackbody as bb

    wavelengths = ctx.pick([0.5e-6, 3.75e-6, 12e-6], [0.2e-6, 0.5e-6, 1.6e-6, 3.75e-6, 8.7e-6, 12e-6, 40e-6])
    wavenumbers = [1.0 / x for x in wavelengths]

    # ------------------------------------------------------------------------------------------ forward
    def forward(ch):
        space = ch.choose("space", ["wavelength", "wavenumber"])
        waves = wavelengths if space == "wavelength" else wavenumbers
        wave_form = ch.choose("wave_form", ["py", "np64", "array", "array1"])
        temp_form = ch.choose("temp_form", ["py", "pyint", "np64", "list", "1d64", "1d32", "2d64", "0d64", "int", "dask1",
                                            "dask2", "dask32", "strided", "empty", "readonly"])
        entry = ch.choose("entry", ["direct", "planck"])
        wave_sel = ch.choose("wave", range(len(waves)) if wave_form in ("py", "np64", "array1") else [0])
        single = temp_form in ("py", "pyint", "np64", "0d64")
        special = temp_form in ("1d64", "1d32", "dask1", "dask32")
        temps = np.array(TEMPS + ([0.0, np.nan, np.inf, 1e-9, 0.03] if special else []))
        sels = [[t] for t in (temps if temp_form != "pyint" else [150, 273, 300, 5800])] if single else [temps]
        for sel in sels:
            sel = np.asarray(sel, "f8")
            if wave_form == "py":
                wave, wref = waves[wave_sel], np.array([waves[wave_sel]])
            elif wave_form == "np64":
                wave, wref = np.float64(waves[wave_sel]), np.array([waves[wave_sel]])
            elif wave_form == "array1":
                wref = np.array([waves[wave_sel]])
                wave = wref.copy()
            else:
                wref = np.array(waves)
                wave = wref.copy()
            lowp = False
            if temp_form == "py":
                temp = float(sel[0])
            elif temp_form == "pyint":
                temp = int(sel[0])
            elif temp_form == "np64":
                temp = np.float64(sel[0])
            elif temp_form == "list":
                temp = [float(t) for t in sel]
            elif temp_form in ("1d64", "readonly"):
                temp = sel.copy()
                if temp_form == "readonly":
                    temp.flags.writeable = False
            elif temp_form == "1d32":
                temp, lowp = sel.astype("f4"), True
            elif temp_form == "2d64":
                sel = sel[:8]
                temp = sel.reshape(2, 4).copy()
            elif temp_form == "0d64":
                temp = np.array(sel[0])
            elif temp_form == "int":
                sel = np.array([150., 273., 300., 5800.])
                temp = sel.astype("i8")
            elif temp_form == "dask1":
                temp = da.from_array(sel, chunks=2)
            elif temp_form == "dask2":
                sel = sel[:8]
                temp = da.from_array(sel.reshape(2, 4), chunks=(1, 3))
            elif temp_form == "dask32":
                temp, lowp = da.from_array(sel.astype("f4"), chunks=3), True
            elif temp_form == "strided":
                base = np.repeat(sel, 2)
                temp = base[::2]
            elif temp_form == "empty":
                raise Prune()
            if lowp:
                sel = sel.astype("f4").astype("f8")
            func = {"wavelength": bb.blackbody, "wavenumber": bb.blackbody_wn}[space]
            if entry == "planck":
                res = bb.planck(wave, temp, wavelength=(space == "wavelength"))
            else:
                res = func(wave, temp)
            if temp_form.startswith("dask"):
                check(isinstance(res, da.Array), "dask temperatures gave %s", type(res))
            if isinstance(temp, np.ndarray) and temp.ndim:
                check(isinstance(res, np.ndarray), "numpy temperatures gave %s", type(res))
            got = w.to_np(res)
            ref = (w.planck_wl if space == "wavelength" else w.planck_wn)(wref[None, :], sel[:, None])
            ref = np.where(np.abs(sel[:, None]) < 1e-6, np.nan, ref)
            ref = np.where(np.isinf(sel[:, None]), np.inf, ref)
            check(got.size == ref.size, "size %s instead of %s", got.size, ref.size)
            got = got.astype("f8").reshape(ref.shape)
            # where the exponential overflows single precision the radiance is zero for all purposes
            tol = 2e-4 if lowp else 1e-9
            check(w.close(got, ref, rtol=tol, atol=(1e-20 if lowp else 1e-200) + (ref[np.isfinite(ref)].max() * 1e-14)),
                  "Planck radiance %s", w.worst(got, ref))
            ch.count(ref.size)

    ctx.explore("forward", forward, workers=8, split=3)

    # ------------------------------------------------------------------------------------------ inverse
    conts = ["scalar", "0d", "1d", "2d", "2dF", "3d", "strided", "empty", "readonly", "xr", "xrdask", "xrcoord", "masked"]
    conts += [("dask1",) + c for c in w.chunkings(ctx.pick(4, 5))]
    conts += [("dask2", a, b) for a in w.chunkings(2) for b in w.chunkings(3)]

    def inverse(ch):
        space = ch.choose("space", ["wavelength", "wavenumber"])
        cont = ch.choose("container", conts)
        dtype = ch.choose("dtype", ["f8", "f4", "i8", "i4", "py", "pyint"] if cont == "scalar" else ["f8", "f4", "i8", "i4"])
        call = ch.choose("call", ["positional", "kwrad", "kwboth"])
        wave_form = ch.choose("wave_form", ["py", "np64", "np32", "0d"])
        waves = ctx.pick([3.75e-6, 12e-6], [3.5e-6, 3.75e-6, 8.7e-6, 12e-6])
        wave = ch.choose("wave", waves)
        if space == "wavenumber":
            wave = 1.0 / wave
        func = bb.blackbody_rad2temp if space == "wavelength" else bb.blackbody_wn_rad2temp
        planck = w.planck_wl if space == "wavelength" else w.planck_wn
        temps = np.array([150.0, 199.99, 273.15, 300.0, 360.0, 1000.0])
        if wave_form == "np32":
            wref = float(np.float32(wave))
        else:
            wref = wave
        integer = dtype in ("i8", "i4", "pyint")
        if integer:
            rads = np.array([1, 2, 7, 100, 1234567, 9573177], "f8") if space == "wavelength" else np.array(
                [1, 2, 3, 4, 5, 7], "f8")
        else:
            rads = planck(wref, temps)
            if dtype == "f4":
                rads = rads.astype("f4").astype("f8")
        ref = _inverse(space, wref, rads)
        specials = not integer and cont in ("1d", ("dask1", 4), "strided")
        if specials:
            rads = np.concatenate([rads, [np.nan, 0.0, np.inf]])
            ref = np.concatenate([ref, [np.nan, 0.0, np.inf]])
        arg_wave = {"py": wave, "np64": np.float64(wave), "np32": np.float32(wave), "0d": np.array(wave)}[wave_form]
        npd = {"f8": "f8", "f4": "f4", "i8": "i8", "i4": "i4", "py": "f8", "pyint": "i8"}[dtype]

        def call_it(rad):
            if call == "positional":
                return func(arg_wave, rad)
            if call == "kwrad":
                return func(arg_wave, radiance=rad)
            if space == "wavelength":
                return func(wavelength=arg_wave, radiance=rad)
            return func(wavenumber=arg_wave, radiance=rad)

        tol = 1e-9
        if dtype == "f4" or wave_form == "np32":
            tol = 2e-5
        if cont == "scalar":
            for rad, want in zip(rads, ref):
                arg = {"py": float(rad), "pyint": int(rad)}.get(dtype)
                if arg is None:
                    arg = np.dtype(npd).type(rad)
                res = call_it(arg)
                check(np.ndim(w.to_np(res)) == 0, "scalar radiance gave shape %s", np.shape(res))
                check(w.close(w.to_np(res), want, rtol=tol), "temperature of %r: %r instead of %r", arg, res, want)
                ch.count(1)
            return
        arr = rads.astype(npd)
        shape = arr.shape
        if cont in ("2d", "2dF", "masked"):
            shape = (2, 3)
        elif cont == "3d":
            shape = (1, 2, 3)
        elif cont == "empty":
            shape, arr, ref = (0,), arr[:0], ref[:0]
        elif cont == "0d":
            shape, arr, ref = (), arr[1:2], ref[1:2]
        elif cont in ("xr", "xrdask", "xrcoord"):
            shape = (3, 2)
        arr, ref = arr.reshape(shape), ref.reshape(shape)
        inp = arr
        if cont == "2dF":
            inp = np.asfortranarray(arr)
        elif cont == "strided":
            inp = np.repeat(arr, 2)[::2]
        elif cont == "readonly":
            inp = arr.copy()
            inp.flags.writeable = False
        elif cont == "masked":
            inp = np.ma.masked_array(arr, mask=[[0, 1, 0], [1, 0, 0]])
        elif cont in ("xr", "xrcoord"):
            inp = xr.DataArray(arr, dims=("y", "x"), attrs={"a": 1})
            if cont == "xrcoord":
                inp = inp.assign_coords(x=[10, 20])
        elif cont == "xrdask":
            inp = xr.DataArray(da.from_array(arr, chunks=(2, 1)), dims=("y", "x"), attrs={"a": 1}, coords={"y": [1, 2, 3]})
        elif isinstance(cont, tuple) and cont[0] == "dask1":
            size = sum(cont[1:])
            arr, ref = arr[:size], ref[:size]
            inp = da.from_array(arr, chunks=(cont[1:],))
        elif isinstance(cont, tuple):
            arr, ref = arr.reshape(2, 3), ref.reshape(2, 3)
            inp = da.from_array(arr, chunks=(cont[1], cont[2]))
        before = w.to_np(inp).copy()
        kind = type(getattr(inp, "data", inp))
        res = call_it(inp)
        check(type(getattr(inp, "data", inp)) is kind and w.close(w.to_np(inp), before, 0), "the radiances were changed")
        again = call_it(inp)
        check(type(again) is type(res) and w.close(w.to_np(again), w.to_np(res), 0), "the second call gives another result")
        if isinstance(inp, da.Array):
            check(isinstance(res, da.Array), "dask gave %s", type(res))
            check(res.chunks == inp.chunks, "chunks %s became %s", inp.chunks, res.chunks)
            check(res.dtype == w.to_np(res).dtype, "type %s announced, %s given", res.dtype, w.to_np(res).dtype)
        elif isinstance(inp, xr.DataArray):
            check(isinstance(res, xr.DataArray), "xarray gave %s", type(res))
            check(res.dims == inp.dims and set(res.coords) == set(inp.coords), "dims/coords changed")
            if cont == "xrdask":
                check(isinstance(res.data, da.Array), "delayed data were evaluated")
                check(res.dtype == w.to_np(res).dtype, "type %s announced, %s given", res.dtype, w.to_np(res).dtype)
        elif cont == "masked":
            check(isinstance(res, np.ma.MaskedArray), "masked array gave %s", type(res))
            check((np.ma.getmaskarray(res) == np.ma.getmaskarray(inp)).all(), "mask changed")
            ref = np.where(np.ma.getmaskarray(inp), np.nan, ref)
        elif cont != "0d":
            check(isinstance(res, np.ndarray), "numpy gave %s", type(res))
        got = w.to_np(res)
        check(got.shape == ref.shape, "shape %s instead of %s", got.shape, ref.shape)
        check(w.close(got, ref, rtol=tol), "temperature %s", w.worst(got, ref))
        if dtype in ("f4", "f8") and cont not in ("0d", "masked"):
            if space == "wavelength" or wave_form == "py":
                check(got.dtype == np.dtype(npd), "radiances of type %s gave %s", npd, got.dtype)
        ch.count(max(1, ref.size))

    ctx.explore("inverse", inverse, workers=8, split=2)

    # ------------------------------------------------------------------------------------------ round trip
    def roundtrip(ch):
        space = ch.choose("space", ["wavelength", "wavenumber"])
        wave = ch.choose("wave", wavelengths)
        wave = wave if space == "wavelength" else 1.0 / wave
        dtype = ch.choose("dtype", ["f8", "f4"])
        lazy = ch.flag("dask")
        hi = C_T(wave, space)
        temps = np.linspace(hi * 0.05, hi, ctx.pick(400, 4000)).astype(dtype)
        arg = da.from_array(temps, chunks=temps.size // 3) if lazy else temps
        fwd = bb.blackbody(wave, arg) if space == "wavelength" else bb.blackbody_wn(wave, arg)
        rad = w.to_np(fwd).ravel()
        check((np.diff(rad.astype("f8")) > -abs(rad.max()) * 1e-7).all(), "radiance does not grow with temperature")
        rad = rad.astype(dtype)
        arg = da.from_array(rad, chunks=rad.size // 2) if lazy else rad
        back = w.to_np((bb.blackbody_rad2temp if space == "wavelength" else bb.blackbody_wn_rad2temp)(wave, arg))
        scaled = rad.astype("f8") * (wave ** 5 if space == "wavelength" else 1.0 / wave ** 3)
        sel = (scaled > 1e-34) & (rad > 1e-30) if dtype == "f4" else rad > 1e-250
        check(sel.any() and w.close(back[sel], temps[sel], rtol=5e-5 if dtype == "f4" else 1e-8),
              "round trip %s", w.worst(back[sel], temps[sel]))
        ch.count(temps.size)

    ctx.explore("roundtrip", roundtrip)

    # ------------------------------------------------------------------- one pixel among others of another kind
    def company(ch):
        space = ch.choose("space", ["wavelength", "wavenumber"])
        temps = np.array([0.0, np.nan, 1e-9, 1.0, 90.0, 285.0, 300.0, 1000.0, 6000.0])
        idx = w.company(ch, temps)
        wave = 3.75e-6 if space == "wavelength" else 1.0 / 3.75e-6
        planck = w.planck_wl if space == "wavelength" else w.planck_wn
        some = temps[idx]
        with np.errstate(all="ignore"):
            want = np.where(some > 1e-6, planck(wave, np.where(some > 1e-6, some, 300.0)), np.nan)
        rads = np.array([0.0, np.nan, np.inf] + list(planck(wave, np.array([90.0, 285.0, 300.0, 1000.0, 2000.0, 6000.0]))))[idx]
        back = np.where(rads == 0, 0.0, np.where(np.isinf(rads), np.inf, np.nan))
        good = np.isfinite(rads) & (rads > 0)
        back[good] = _inverse(space, wave, rads[good])
        for kind in ("numpy", "dask"):
            one, two = (some.copy(), rads.copy()) if kind == "numpy" else [da.from_array(a, chunks=10) for a in (some, rads)]
            got = w.to_np(bb.blackbody(wave, one) if space == "wavelength" else bb.blackbody_wn(wave, one)).ravel()
            check(w.close(got, want, rtol=1e-9), "%s radiance %s: %s", kind, idx[[0, 1, -1]], w.worst(got, want))
            got = w.to_np(bb.blackbody_rad2temp(wave, two) if space == "wavelength" else bb.blackbody_wn_rad2temp(wave, two))
            check(w.close(got, back, rtol=1e-9), "%s temperature %s: %s", kind, idx[[0, 1, -1]], w.worst(got, back))
            ch.count(2 * idx.size)
        ch.state(space, idx[0], idx[1], idx[-1])

    ctx.explore("company", company, workers=4, split=2)


def C_T(wave, space):
    lam = wave if space == "wavelength" else 1.0 / wave
    return min(6000.0, w.C1 / lam)


def _inverse(space, wave, rads):
    rads = np.asarray(rads, "f8")
    if space == "wavelength":
        return w.C1 / (wave * np.log1p(w.C2 / (rads * wave ** 5)))
    return w.C1 * wave / np.log1p(w.C2 * wave ** 3 / rads)
