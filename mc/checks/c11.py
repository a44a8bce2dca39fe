"""C11: band radiances, tables and the way back."""
import itertools
import os

import dask.array as da
import numpy as np

from mc import world as w
from mc.core import check

SHAPES = {"triangle": lambda c: w.tri_band(c, 0.2, 9), "skewed": lambda c: w.tri_band(c, 0.3, 12, skew=0.7),
          "box": lambda c: (np.linspace(c - 0.1, c + 0.1, 5), np.ones(5)),
          "uneven": lambda c: (c + np.array([-0.2, -0.15, 0.0, 0.02, 0.3]), np.array([0.0, 0.5, 1.0, 0.9, 0.1])),
          "three": lambda c: (c + np.array([-0.1, 0.02, 0.1]), np.array([0.2, 1.0, 0.3])),
          "pair": lambda c: (c + np.array([-0.1, 0.1]), np.array([1.0, 0.9])),
          "noisy": lambda c: (w.tri_band(c, 0.2, 9)[0], w.tri_band(c, 0.2, 9)[1] - 0.02),
          "strong": lambda c: (w.tri_band(c, 0.2, 9)[0], 3.0 * w.tri_band(c, 0.2, 9)[1])}
PLATFORM, INST = "EOS-Aqua", "modis"
CENTERS = {"20": 3.75, "31": 11.03, "32": 12.02}


class World:
    def __init__(self, shape, dtype="f8"):
        self.store = w.Store().current()
        self.data = {}
        for name, center in CENTERS.items():
            self.data[name] = {"det-1": SHAPES[shape](center), "det-2": SHAPES["triangle" if shape != "triangle" else "box"](
                center + 0.07)}
        w.write_rsr(self.store.rsr_path(INST, PLATFORM), self.data, PLATFORM, INST, dtype=dtype)

    def si(self, band, det, space):
        wvl, resp = self.data[band][det]
        if space == "wavelength":
            return wvl * 1e-6, resp
        return 1e6 / wvl[::-1], resp[::-1]


def run(ctx):
    from pyspectral.radiance_tb_conversion import RadTbConverter, radiance2tb

    temps = np.array([100.0, 150.0, 180.5, 200.0, 229.99, 253.0, 273.15, 288.7, 300.0, 320.2, 359.9, 360.0, 500.0])

    # ---- direct computation and the inverse
    def direct(ch):
        shape = ch.choose("shape", list(SHAPES))
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        dtype = ch.choose("stored", ["f8", "f4"])
        world = World(shape, dtype)
        with world.store:
            for band, det in itertools.product(CENTERS, ["det-1", "det-2"]):
                for asked in (band, CENTERS[band] + 0.02):
                    if asked != band and det == "det-2" and ctx.tier == "quick":
                        continue
                    conv = RadTbConverter(PLATFORM, INST, asked, detector=det, wavespace=space)
                    wave, resp = world.si(band, det, space)
                    rtol = 3e-5 if dtype == "f4" else 1e-9
                    for norm in (None, True, False):
                        kwargs = {} if norm is None else {"normalized": norm}
                        want = w.band_radiance(wave, resp, temps, space, norm is not False)
                        res = conv.tb2radiance(temps, **kwargs)
                        got = w.to_np(res["radiance"])
                        text = "%s %s %s %s normalized=%s" % (shape, asked, det, space, norm)
                        check(w.close(got, want, rtol), "%s: %s", text, w.worst(got, want))
                        check(np.all(np.diff(got) > 0), "%s: not growing with temperature", text)
                        check(res["scale"] == 1.0, "%s: scale %s", text, res["scale"])
                        for num in (3, 8):
                            one = float(np.ravel(w.to_np(conv.tb2radiance(np.array([temps[num]]), **kwargs)["radiance"]))[0])
                            check(abs(one - want[num]) <= rtol * want[num], "%s: single value", text)
                            one = float(np.ravel(w.to_np(conv.tb2radiance(float(temps[num]), **kwargs)["radiance"]))[0])
                            check(abs(one - want[num]) <= rtol * want[num], "%s: python value", text)
                        ch.count(len(temps))
                    # and back
                    rads = w.band_radiance(wave, resp, temps, space)
                    if space == "wavelength":
                        center = w.central(*world.data[band][det]) * 1e-6
                        want = w.C1 / (center * np.log1p(w.C2 / (rads * center ** 5)))
                    else:
                        center = w.central(wave, resp)
                        want = w.C1 * center / np.log1p(w.C2 * center ** 3 / rads)
                    for form in (rads, da.from_array(rads, chunks=5)):
                        got = w.to_np(conv.radiance2tb(form))
                        check(w.close(got, want, 2e-6), "%s %s %s %s radiance2tb: %s", shape, asked, det, space,
                              w.worst(got, want))
                    check(np.all(np.abs(want - temps) < 6.0), "model")
                    if space == "wavelength":
                        got = w.to_np(radiance2tb(rads, center))
                        check(w.close(got, want, 1e-9), "radiance2tb function: %s", w.worst(got, want))
                    ch.state(shape, space, band, det)

    ctx.explore("direct", direct, workers=8, split=3)

    # ---- tables
    resolutions = ctx.pick([0.1, 0.5, 1.0], [0.1, 0.05, 0.25, 0.5, 1.0, 2.0, 0.01])

    def table(ch):
        shape = ch.choose("shape", ctx.pick(["triangle", "skewed"], list(SHAPES)))
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        res = ch.choose("resolution", [None] + resolutions)
        band, det = ch.choose("band", [("20", "det-1"), ("31", "det-2")])
        world = World(shape)
        step = res or 0.1
        with world.store:
            kwargs = {} if res is None else {"tb_resolution": res}
            conv = RadTbConverter(PLATFORM, INST, band, detector=det, wavespace=space, **kwargs)
            wave, resp = world.si(band, det, space)
            for norm, name in ((True, "lut.npz"), (False, "other")):
                path = os.path.join(world.store.root, name)
                conv.make_tb2rad_lut(path, normalized=norm)
                path = path if path.endswith(".npz") else path + ".npz"
                lut = RadTbConverter.read_tb2rad_lut(path)
                tbs, rads = np.asarray(lut["tb"], "f8"), np.asarray(lut["radiance"], "f8")
                num = int(round(210.0 / step))
                check(tbs.size in (num, num + 1) and tbs.shape == rads.shape, "table of %s %s", tbs.shape, rads.shape)
                check(w.close(tbs, 150 + step * np.arange(tbs.size), 1e-9), "table temperatures")
                idx = np.unique(np.r_[0:5, np.linspace(0, tbs.size - 1, 60).astype(int), tbs.size - 5:tbs.size])
                want = w.band_radiance(wave, resp, tbs[idx], space, norm)
                check(w.close(rads[idx], want, 1e-9), "table radiances (normalized=%s): %s", norm, w.worst(rads[idx], want))
                check(np.all(np.diff(rads) > 0), "table not growing")
                ch.count(idx.size)
                # looking up: the middle and the ends of steps
                base = np.r_[tbs[idx], 100.0, 149.0, 0.0, 361.0, 400.0, 1000.0, 5000.0]
                pts = np.r_[np.repeat(base, 3) + np.tile([0.25, 0.5, 0.75], base.size) * step, np.nan, tbs[0], 149.9999]
                exact = np.where(np.isnan(pts), np.nan, rads[np.clip(np.floor(np.nan_to_num((pts - 150) / step) + 1e-6),
                                                                     0, tbs.size - 1).astype(int)])
                for dtype in ("f8", "f4"):
                    vals = pts.astype(dtype)
                    near = np.abs((vals.astype("f8") - 150) / step - np.round((vals.astype("f8") - 150) / step)) < 2e-3
                    near &= ~np.isnan(vals)
                    pick = ~near
                    forms = [("numpy", vals), ("2d", vals[:vals.size // 2 * 2].reshape(2, -1)),
                             ("dask", da.from_array(vals, chunks=11)), ("dask1", da.from_array(vals, chunks=-1)),
                             ("strided", np.repeat(vals, 2)[::2])]
                    for label, form in forms:
                        ret = conv.tb2radiance(form, lut=lut, normalized=norm)
                        out = ret["radiance"]
                        if label.startswith("dask"):
                            check(isinstance(out, da.Array) and out.chunks == form.chunks, "%s: %s returned", label, type(out))
                        got = w.to_np(out)
                        check(got.shape == form.shape, "%s: shape %s", label, got.shape)
                        check(got.dtype == np.dtype(dtype), "%s: type %s for %s", label, got.dtype, dtype)
                        flat = got.ravel()
                        sel = pick[:flat.size]
                        check(w.close(flat[sel], exact[:flat.size][sel], 1e-6 if dtype == "f4" else 1e-12),
                              "%s %s %s: %s", label, dtype, step, w.worst(flat[sel], exact[:flat.size][sel]))
                        ch.count(flat.size)
                    for num_ in (3, 40, vals.size - 3):
                        got = conv.tb2radiance(vals[num_], lut=lut)["radiance"]
                        check(w.close(np.float64(got), exact[num_], 1e-6), "scalar: %r for %r", got, vals[num_])
                        got = conv.tb2radiance(vals[num_:num_ + 1], lut=lut)["radiance"]
                        check(w.close(np.float64(got), exact[num_], 1e-6), "single element: %r for %r", got, vals[num_])
            ch.state(shape, space, res, band)

    ctx.explore("table", table, workers=8, split=4)

    # ---- one pixel among others of another kind
    several = np.array([100.03, 149.95, 150.05, 200.04, 285.03, 300.06, 359.97, 360.05, 500.05, np.nan, 0.05])
    exploring = World("skewed")

    def company(ch):
        idx = w.company(ch, several)
        conv, lut, rads = made["20"]
        vals = several[idx]
        want = np.where(np.isnan(vals), np.nan, rads[np.clip(np.floor(np.nan_to_num((vals - 150) * 10)), 0, rads.size - 1).astype(int)])
        wave, resp = exploring.si("20", "det-1", "wavelength")
        with np.errstate(all="ignore"):
            exact = np.where(np.isnan(vals), np.nan, w.band_radiance(wave, resp, np.nan_to_num(vals, nan=300.0), "wavelength"))
        for kind in ("numpy", "dask"):
            form = vals if kind == "numpy" else da.from_array(vals, chunks=10)
            got = w.to_np(conv.tb2radiance(form, lut=lut)["radiance"])
            check(w.close(got, want, 1e-12), "%s %s: %s", kind, idx[[0, 1, -1]], w.worst(got, want))
        got = w.to_np(conv.tb2radiance(vals)["radiance"])
        check(w.close(got, exact, 1e-9), "direct %s: %s", idx[[0, 1, -1]], w.worst(got, exact))
        ch.count(3 * idx.size)
        ch.state(idx[0], idx[1], idx[-1])

    def make(band):
        conv = RadTbConverter(PLATFORM, INST, band)
        path = os.path.join(exploring.store.root, "t%d.npz" % os.getpid())
        conv.make_tb2rad_lut(path)
        lut = conv.read_tb2rad_lut(path)
        return conv, lut, np.asarray(lut["radiance"], "f8")

    made = w.PerProcess(make)
    with exploring.store:
        ctx.explore("company", company, workers=4, split=2)

    # ---- every temperature of the default table
    def every(ch):
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        world = World("skewed")
        with world.store:
            conv = RadTbConverter(PLATFORM, INST, "20", wavespace=space)
            path = os.path.join(world.store.root, "t.npz")
            conv.make_tb2rad_lut(path)
            lut = conv.read_tb2rad_lut(path)
            wave, resp = world.si("20", "det-1", space)
            steps = np.arange(1500, 3600)
            for frac in (0.2, 0.8):
                vals = (steps + frac) / 10.0
                want = w.band_radiance(wave, resp, steps / 10.0, space)
                got = np.asarray(conv.tb2radiance(vals, lut=lut)["radiance"])
                check(w.close(got, want, 1e-9), "%s", w.worst(got, want))
                exact = w.band_radiance(wave, resp, vals, space)
                check(np.all(got <= exact) and np.all(exact[:-1] < got[1:]), "not the step below")
                ch.count(vals.size)

    ctx.explore("every", every)

    def refused(ch):
        world = World("triangle")
        with world.store:
            kwargs = ch.choose("arguments", [dict(wavespace="frequency"), dict(detector="det-9"), dict(band="nope"),
                                             dict(band=7.5)])
            args = dict(platform_name=PLATFORM, instrument=INST, band="20")
            args.update(kwargs)
            try:
                RadTbConverter(**args)
            except (AttributeError, KeyError):
                return
            check(False, "%s accepted", kwargs)

    ctx.explore("refused", refused)
    ctx.assume("Values within 0.002 steps of a table temperature may take either neighbour (floating point).")
