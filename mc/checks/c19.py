"""C19: infrared limb correction."""
import itertools

import dask.array as da
import numpy as np

from mc import world as w
from mc.core import check

TBS = [150.0, 170.0, 205.5, 210.0, 250.0, 295.0, 320.0, 335.25, np.nan]
ZEN = [0.0, -0.0, 1e-9, 0.001, 10.0, 45.0, 70.0, 89.0, 89.999, 90.0, 95.0, 180.0, -0.001, -30.0, np.nan]
GRID = np.array(list(itertools.product(TBS, ZEN)))


def model(data, zen):
    data, zen = np.asarray(data, "f8"), np.asarray(zen, "f8")
    nadir = 10.85 ** ((data - 210.0) / 110.0) - 1
    with np.errstate(over="ignore", invalid="ignore"):
        off = ((data - 170.0) / 125.0) ** 4 * (7.2 ** (zen / 70.0) - 1)
    return np.where(zen == 0, data + nadir, np.where((zen > 0) & (zen < 90), data + off, data))


def run(ctx):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr

    def judge(got, want, dtype, text):
        vals = np.asarray(got)
        check(vals.shape == want.shape and vals.dtype == np.dtype(dtype), "%s: %s %s", text, vals.shape, vals.dtype)
        rtol = 2e-6 if dtype == "f4" else 1e-12
        check(w.close(vals, want, rtol), "%s: %s", text, w.worst(vals, want))

    size = len(GRID)
    shapes = [(1, size), (size, 1), (9, 15), (15, 9), (5, 27)]

    def pixels(ch):
        shape = ch.choose("shape", shapes)
        dtype = ch.choose("dtype", ["f8", "f4"])
        func = ch.choose("function", ["object", "inplace"])
        kind = ch.choose("container", ["numpy", "masked-none", "masked-some", "masked-all", "dask", "dask-masked", "dask-zen",
                                       "dask-data"])
        zmask = ch.choose("zenith", ["plain", "masked"]) if kind.startswith("masked") else "plain"
        layout = ch.choose("layout", ["C", "F"])
        data = np.array(GRID[:, 0].reshape(shape), dtype, order=layout)
        zen = np.array(GRID[:, 1].reshape(shape), dtype, order=layout)
        want = model(data, zen)
        mask = np.zeros(shape, bool)
        if kind in ("masked-some", "dask-masked"):
            mask = (np.arange(size) % 4 == 1).reshape(shape)
        elif kind == "masked-all":
            mask[:] = True
        want = np.where(mask, data, want)
        hidden = (np.arange(size) % 5 == 2).reshape(shape) if zmask == "masked" else np.zeros(shape, bool)
        want = np.where(hidden, data, want)
        one = zen if zmask == "plain" else np.ma.masked_array(zen.copy(), mask=hidden)
        two = data.copy()
        if kind.startswith("masked"):
            two = np.ma.masked_array(two, mask=mask)
        chunks = (ch.choose("chunks", [1, 4, 100]),) * 2 if kind.startswith("dask") else None
        if kind == "dask-masked":
            two = np.ma.masked_array(two, mask=mask)
        if kind in ("dask", "dask-masked", "dask-zen"):
            one = da.from_array(one, chunks=chunks)
        if kind in ("dask", "dask-masked", "dask-data"):
            two = da.from_array(two, chunks=chunks)
        zkeep = zen.copy()
        if func == "object":
            zen.setflags(write=False)
        got = AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(one, "M15", two) if func == "object" else \
            viewzen_corr(two, one)
        text = "%s %s %s" % (func, kind, shape)
        if kind.startswith("dask"):
            check(isinstance(got, da.Array), "%s: %s", text, type(got))
            done = got.compute()
        else:
            done = got
        if "masked" in kind:
            check(isinstance(done, np.ma.MaskedArray), "%s: %s", text, type(done))
            # an undefined pixel may become masked
            check(np.array_equal(np.ma.getmaskarray(done) & ~np.isnan(data), mask & ~np.isnan(data)), "%s: mask changed", text)
            vals = np.where(mask, data, done.data) if kind == "dask-masked" else done.data
            vals = np.where(np.isnan(data) & np.ma.getmaskarray(done), data, vals)
        else:
            check(not isinstance(done, np.ma.MaskedArray), "%s: %s", text, type(done))
            vals = done
        # (numpy's masked arithmetic works in double precision)
        judge(vals.astype(dtype) if kind == "dask-masked" else vals, want, dtype, text)
        check(np.array_equal(zen, zkeep, equal_nan=True), "%s: angles changed", text)
        if func == "inplace" and not kind.startswith("dask"):
            check(got is two, "%s: not in place", text)
        elif func == "object" and not kind.startswith("dask"):
            check(np.array_equal(np.asarray(two), data, equal_nan=True), "%s: data changed", text)
            check(np.array_equal(np.ma.getmaskarray(two), mask), "%s: mask of the data changed", text)
        if kind.startswith("dask") and kind != "dask-zen":
            after = np.asarray(two.compute())
            check(np.array_equal(after, data, equal_nan=True), "%s: delayed data changed", text)
        ch.count(size)
        ch.state(shape, dtype, func, kind, zmask)

    ctx.explore("pixels", pixels, workers=8, split=3)

    # every assignment of pixel classes to a 2 x 2 image, with every mask
    classes = [(280.0, 0.0), (280.0, 40.0), (250.0, 0.0), (250.0, 91.0), (300.0, -5.0)]

    def neighbours(ch):
        pix = [ch.choose("pixel%d" % i, classes) for i in range(4)]
        data = np.array([p[0] for p in pix]).reshape((2, 2))
        zen = np.array([p[1] for p in pix]).reshape((2, 2))
        want = model(data, zen)
        for bits in itertools.product([False, True], repeat=4):
            mask = np.array(bits).reshape((2, 2))
            got = viewzen_corr(np.ma.masked_array(data.copy(), mask=mask), zen)
            check(np.array_equal(np.ma.getmaskarray(got), mask), "mask changed")
            check(w.close(got.data, np.where(mask, data, want), 1e-12), "mask %s: %s", bits,
                  w.worst(got.data, np.where(mask, data, want)))
            ch.count(4)
        got = AtmosphericalCorrection("a", "b").get_correction(zen, "M1", data)
        check(w.close(got, want, 1e-12), "plain: %s", w.worst(got, want))
        for chunks in (1, (1, 2), (2, 1), 2):
            got = AtmosphericalCorrection("a", "b").get_correction(da.from_array(zen, chunks=chunks), "M1",
                                                                   da.from_array(data, chunks=chunks)).compute()
            check(w.close(got, want, 1e-12), "dask: %s", w.worst(got, want))
        ch.state(pix)

    ctx.explore("neighbours", neighbours, workers=8, split=1)

    # one pixel among others of another kind
    kinds = np.array([[280.0, 0.0], [280.0, 40.0], [170.0, 40.0], [210.0, 0.0], [150.0, 30.0], [250.0, 90.0], [250.0, 120.0],
                      [300.0, -5.0], [np.nan, 40.0], [300.0, np.nan], [330.0, 89.5]])

    def company(ch):
        idx = w.company(ch, kinds)
        data, zen = kinds[idx, 0].reshape((4, 5)), kinds[idx, 1].reshape((4, 5))
        want = model(data, zen)
        for kind in ("numpy", "dask", "inplace"):
            one, two = (da.from_array(a.copy(), chunks=(2, 5)) for a in (zen, data)) if kind == "dask" else (zen.copy(), data.copy())
            got = viewzen_corr(two, one) if kind == "inplace" else AtmosphericalCorrection("a", "b").get_correction(one, "M1", two)
            judge(w.to_np(got), want, "f8", "%s %s" % (kind, idx[[0, 1, -1]]))
            ch.count(want.size)
        ch.state(idx[0], idx[1], idx[-1])

    ctx.explore("company", company, workers=4, split=2)

    def refused(ch):
        atm = ch.choose("atmosphere", ["us-standard", "nope"])
        try:
            AtmosphericalCorrection("a", "b", atmosphere=atm)
        except Exception:
            return
        check(False, "atmosphere %s accepted", atm)

    ctx.explore("refused", refused)
    ctx.assume("The band does not matter to the correction; images are two-dimensional, as documented.")
