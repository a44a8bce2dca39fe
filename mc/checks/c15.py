"""C15: Rayleigh correction against a reference interpolation."""
import itertools
import os

import dask.array as da
import numpy as np

from mc import rayl
from mc import world as w
from mc.checks.c05 import GOLD
from mc.core import Prune, check


def between(coord, fracs):
    step = coord[1] - coord[0]
    out = [c + f * step for c in coord[:-1] for f in fracs] + [coord[-1]]
    return np.array(out)


def degrees(secants):
    return np.degrees(np.arccos(1 / secants))


SUN_PTS = np.concatenate([degrees(between(rayl.SUN, (0, 0.5, 0.8))), [np.nan, -10.0, 76.5, 89.0, 95.0, 180.0, np.inf, -np.inf]])
SAT_PTS = np.concatenate([degrees(between(rayl.SAT, (0, 0.3, 0.5))), [np.nan, -10.0, 71.5, 89.0, 95.0, np.inf]])
AZI_PTS = 180 - between(rayl.AZI, (0, 0.5, 0.25))
RED_PTS = np.array([-5.0, 0.0, 19.99, 20.0, 20.01, 50.0, 100.0, 130.0])
GRID = np.array(list(itertools.product(SUN_PTS, SAT_PTS, AZI_PTS)))


def store_with(tables, download=False):
    """tables: {(aerosol, atmosphere): values}."""
    store = w.Store(download=download).current()
    for (aerosol, atm), values in tables.items():
        rayl.write(os.path.join(store.rayleigh_dir, aerosol, "rayleigh_lut_%s.h5" % atm.replace(" ", "_")), values)
    return store


def judge(got, want, dtype, text):
    got = np.asarray(w.to_np(got))
    check(got.shape == want.shape, "%s: shape %s instead of %s", text, got.shape, want.shape)
    check(got.dtype == np.dtype(dtype), "%s: type %s instead of %s", text, got.dtype, dtype)
    atol = 5e-3 if np.dtype(dtype) == np.dtype("f4") else 1e-8
    check(w.close(got, want, atol / 100, atol), "%s: %s", text, w.worst(got, want))
    check(bool(np.all((got >= 0) & (got <= 100))), "%s: outside 0..100", text)


def run(ctx):
    from pyspectral.rayleigh import Rayleigh

    luts = {"plain": rayl.lut(0), "wide": rayl.lut(1, -0.5, 1.6), "other": rayl.lut(2, 0.0, 1.2)}
    wavelengths = [0.3, 0.3999, 0.4001, 0.45, 0.475, 0.5, 0.52, 0.5999, 0.6, 0.65, 0.7, 0.76, 0.7999, 0.8001, 0.86, 1.6]
    default = ("marine_clean_aerosol", "us-standard")

    def grid(ch):
        name = ch.choose("table", ["plain", "wide"])
        wvl = ch.choose("wavelength", wavelengths)
        dtype = ch.choose("dtype", ["f8", "f4"])
        container = ch.choose("container", ["numpy", "dask", "2d", "dask-2d"])
        red = ch.choose("red", [None, "all"])
        pts = GRID.astype(dtype)
        reds = None
        if red:
            pts = np.repeat(pts[:: 1 if ctx.thorough else 3], len(RED_PTS), axis=0)
            reds = np.tile(RED_PTS, len(pts) // len(RED_PTS)).astype(dtype)
        arrs = [np.ascontiguousarray(pts[:, i]) for i in range(3)] + ([reds] if red else [])
        if "2d" in container:
            arrs = [a[:len(a) // 4 * 4].reshape((4, -1)) for a in arrs]
        want = rayl.model(luts[name], wvl * 1000.0, *arrs)
        args = arrs
        if "dask" in container:
            chunks = (3, 500) if "2d" in container else 700
            args = [da.from_array(a, chunks=chunks) for a in arrs]
        with store_with({default: luts[name]}):
            obj = Rayleigh("Suomi-NPP", "viirs")
            copies = [a.copy() for a in arrs]
            got = obj.get_reflectance(*args[:3], wvl, *args[3:])
            check(("dask" in container) == hasattr(got, "compute"), "%s gave %s", container, type(got))
            judge(got, want, dtype, "%s %s" % (name, wvl))
            check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arrs, copies)), "inputs changed")
        ch.state(name, wvl, container, red)
        ch.count(want.size)

    ctx.explore("grid", grid, workers=8, split=3)

    # red band and angles of different types
    def mixed(ch):
        wvl = ch.choose("wavelength", [0.45, 0.65, 0.86])
        kinds = [ch.choose("type of the %s" % name, ["f8", "f4"]) for name in ("sun zenith", "satellite zenith", "azimuth", "red band")]
        container = ch.choose("container", ["numpy", "dask"])
        pts = np.repeat(GRID[::7], 2, axis=0)
        arrs = [np.ascontiguousarray(pts[:, i]).astype(kinds[i]) for i in range(3)]
        arrs.append(np.tile(RED_PTS, len(pts) // len(RED_PTS) + 1)[:len(pts)].astype(kinds[3]))
        want = rayl.model(luts["plain"], wvl * 1000.0, *arrs)
        args = [da.from_array(a, chunks=200) for a in arrs] if container == "dask" else arrs
        with store_with({default: luts["plain"]}):
            got = Rayleigh("Suomi-NPP", "viirs").get_reflectance(*args[:3], wvl, args[3])
            check(got.dtype == w.to_np(got).dtype == np.dtype(kinds[3]), "%s %s: type %s, %s", wvl, kinds, got.dtype, w.to_np(got).dtype)
            got = np.asarray(w.to_np(got))
            check(got.shape == want.shape and w.close(got, want, 5e-5, 5e-3), "%s %s: %s", wvl, kinds, w.worst(got, want))
        ch.count(want.size)
        ch.state(wvl, tuple(kinds), container, str(got.dtype))

    ctx.explore("mixed", mixed, workers=8, split=3)

    # exactly at the ends of the wavelength range: the table value or nothing
    def ends(ch):
        wvl = ch.choose("wavelength", [0.4, 0.8])
        with store_with({default: luts["plain"]}):
            got = Rayleigh("Suomi-NPP", "viirs").get_reflectance(*[np.ascontiguousarray(GRID[:, i]) for i in range(3)], wvl)
            near = rayl.model(luts["plain"], wvl * 1000 + (1e-9 if wvl < 0.5 else -1e-9), *GRID.T)
            check(w.close(got, near, 1e-6, 1e-6) or not np.any(got), "neither table value nor zero at %s", wvl)

    ctx.explore("ends", ends)

    # the right table for every aerosol type and atmosphere
    combos = [(aer, atm) for aer in sorted(GOLD["aerosol_types"]) for atm in sorted(GOLD["atmospheres"])]
    pts = np.array([[10.0, 20.0, 30.0], [60.0, 50.0, 170.0], [75.0, 5.0, 90.0]])

    def tables(ch):
        aer, atm = ch.choose("combination", combos)
        form = ch.choose("form", ["both", "order"])
        content = {c: rayl.lut(num) for num, c in enumerate(combos)}
        with store_with(content):
            kwargs = {"aerosol_type": aer, "atmosphere": atm}
            if aer == default[0] and form == "both":
                kwargs.pop("aerosol_type")
            if atm == default[1] and form == "both":
                kwargs.pop("atmosphere")
            if form == "order":
                # others made before do not matter
                Rayleigh("Suomi-NPP", "viirs").get_reflectance(*pts.T.copy(), 0.5)
            got = Rayleigh("Suomi-NPP", "viirs", **kwargs).get_reflectance(*pts.T.copy(), 0.5)
            judge(got, rayl.model(content[aer, atm], 500.0, *pts.T), "f8", "%s %s" % (aer, atm))
            # only the table asked for is needed
        with store_with({(aer, atm): content[aer, atm]}):
            got = Rayleigh("Suomi-NPP", "viirs", **kwargs).get_reflectance(*pts.T.copy(), 0.5)
            judge(got, rayl.model(content[aer, atm], 500.0, *pts.T), "f8", "%s %s alone" % (aer, atm))
        for bad in ({"aerosol_type": "nope"}, {"atmosphere": "nope"}):
            try:
                Rayleigh("Suomi-NPP", "viirs", **bad)
            except Exception:
                continue
            check(False, "%s accepted", bad)

    ctx.explore("tables", tables, workers=8, split=1)

    # one pixel among others of another kind
    kinds = np.array([[30.0, 20.0, 60.0, 10.0], [30.0, 20.0, 60.0, -5.0], [30.0, 20.0, 60.0, 0.0], [30.0, 20.0, 60.0, 20.5],
                      [30.0, 20.0, 60.0, 60.0], [30.0, 20.0, 60.0, 125.0], [np.nan, 20.0, 60.0, 30.0], [30.0, np.nan, 60.0, 30.0],
                      [88.0, 20.0, 60.0, 30.0], [95.0, 20.0, 60.0, 30.0], [30.0, 85.0, 60.0, 30.0], [0.0, 0.0, 180.0, 5.0],
                      [70.0, 66.0, 0.0, 90.0], [-3.0, 20.0, 60.0, 10.0]])

    def company(ch):
        name = ch.choose("table", ["plain", "wide"])
        idx = w.company(ch, kinds)
        with store_with({default: luts[name]}):
            obj = Rayleigh("Suomi-NPP", "viirs")
            for red in (0, 1):
                arrs = [np.ascontiguousarray(kinds[idx, i]) for i in range(3 + red)]
                want = rayl.model(luts[name], 475.0, *arrs)
                for kind in ("numpy", "dask"):
                    args = arrs if kind == "numpy" else [da.from_array(a, chunks=10) for a in arrs]
                    judge(obj.get_reflectance(*args[:3], 0.475, *args[3:]), want, "f8", "%s %s %s" % (name, kind, idx[[0, 1, -1]]))
                    ch.count(want.size)
        ch.state(name, idx[0], idx[1], idx[-1])

    ctx.explore("company", company, workers=8, split=2)

    # tables replaced by an update are used by every correction made afterwards
    finer = np.array([400.0, 430.0, 480.0, 560.0, 650.0, 900.0])

    def replaced(ch):
        names = ["plain", "wide", "other", "finer"]
        plan = [ch.choose("table %d" % i, names) for i in range(3)]
        if any(a == b for a, b in zip(plan, plan[1:])):
            raise Prune()
        how = ch.choose("replaced by", ["rewriting", "renaming", "new directory"])
        wvl = ch.choose("wavelength", [0.5, 0.85])
        kind = ch.choose("container", ["numpy", "dask"])
        with store_with({}) as store:
            path = os.path.join(store.rayleigh_dir, default[0], "rayleigh_lut_us-standard.h5")
            for num, name in enumerate(plan):
                values, coords = (luts["plain"], finer) if name == "finer" else (luts[name], rayl.WVL)
                if how == "rewriting":
                    rayl.write(path, values, coords)
                elif how == "renaming":
                    rayl.write(path + ".new", values, coords)
                    os.replace(path + ".new", path)
                else:
                    if os.path.exists(path):
                        os.remove(path)
                    rayl.write(path, values, coords)
                args = [pts[:, i].copy() for i in range(3)]
                want = rayl.model(values, wvl * 1000.0, *args, coords=coords)
                if kind == "dask":
                    args = [da.from_array(a, chunks=2) for a in args]
                got = Rayleigh("Suomi-NPP", "viirs").get_reflectance(*args, wvl)
                judge(got, want, "f8", "table %s after %s by %s" % (name, plan[:num], how))
        ch.state(tuple(plan), how, wvl)
        ch.count(9)

    ctx.explore("replaced", replaced, workers=8, split=2)

    # earlier calls, for nearly the same wavelength or with other tables, leave no trace
    spots = [0.5, 0.5004, 0.50001, 0.65]

    def histories(ch):
        same = ch.flag("one object")
        kind = ch.choose("container", ["numpy", "dask"])
        plan = [(ch.choose("wavelength %d" % i, spots), ch.choose("table %d" % i, ["plain"] if same else ["plain", "other"]), ch.flag("red %d" % i))
                for i in range(ctx.pick(2, 3))]
        if len({p[:2] for p in plan}) == 1:
            raise Prune()
        second = (default[0], "tropical")
        with store_with({default: luts["plain"], second: luts["other"]}):
            obj = Rayleigh("Suomi-NPP", "viirs")
            for wvl, name, red in plan:
                if not same:
                    obj = Rayleigh("Suomi-NPP", "viirs", atmosphere=default[1] if name == "plain" else second[1])
                args = [pts[:, i].copy() for i in range(3)] + [np.linspace(5.0, 80.0, len(pts))][:red]
                want = rayl.model(luts[name], wvl * 1000.0, *args)
                if kind == "dask":
                    args = [da.from_array(a, chunks=2) for a in args]
                judge(obj.get_reflectance(*args[:3], wvl, *args[3:]), want, "f8", "%s in %s" % ((wvl, name, red), plan))
                ch.count(want.size)
        ch.state(same, kind, tuple(plan))

    ctx.explore("histories", histories, workers=8, split=3)

    # bands by name: effective wavelength weighted with the -4th power
    bands = {"M3": w.tri_band(0.488, 0.02, 9), "M4": w.tri_band(0.56, 0.06, 13, skew=0.5), "I1": w.tri_band(0.66, 0.1, 15),
             "I2": w.tri_band(0.865, 0.02, 9), "M5": w.tri_band(0.79, 0.05, 11, skew=0.9), "M6": (np.linspace(0.44, 0.52, 9), np.array([-0.02, 0.1, 0.5, 1.0, 3.0, 2.0, 1.5, 0.3, 0.0])), "M1": w.tri_band(0.405, 0.03, 9, skew=0.3),
             "M2": (np.array([0.44, 0.45, 0.5]), np.array([0.2, 1.0, 0.1])), "DNB": (np.array([0.5, 0.7]), np.array([1.0, 0.5]))}

    def effective(curve):
        return w.central(curve[0], curve[1], 1.0 / np.asarray(curve[0], "f8") ** 4) * 1000

    def named(ch):
        history = [ch.choose("band%d" % i, sorted(bands)) for i in range(2)]
        red = ch.flag("red")
        dtype = ch.choose("dtype", ["f8", "f4"])
        kind = ch.choose("container", ["numpy", "dask"])
        arr = pts.astype(dtype)
        with store_with({default: luts["other"]}) as store:
            other = w.tri_band(0.7, 0.02, 9)
            w.write_rsr(store.rsr_path("viirs", "Suomi-NPP"),
                        {n: {"det-1": c, "det-2": other} for n, c in bands.items()}, "Suomi-NPP", "viirs", dtype="f8")
            obj = Rayleigh("Suomi-NPP", "viirs")
            for name in history:
                args = [arr[:, i].copy() for i in range(3)]
                extra = [np.array([10.0, 35.0, 60.0], dtype)] if red else []
                want = rayl.model(luts["other"], effective(bands[name]), *args, *extra)
                if kind == "dask":
                    args = [da.from_array(a, chunks=2) for a in args]
                    extra = [da.from_array(a, chunks=2) for a in extra]
                got = obj.get_reflectance(*args, name, *extra)
                judge(got, want, dtype, name)

    ctx.explore("named", named, workers=8, split=2)
    ctx.assume("Tables have equidistant angle axes, as the published ones; azimuth differences are within 0..180 degrees.")
    ctx.assume("Exactly at the ends of the wavelength range both the table value and zero are accepted.")
