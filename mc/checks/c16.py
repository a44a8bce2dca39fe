"""C16: chunked results do not depend on chunks, task order or thread interleaving; building is lazy."""
import itertools
import os

import dask
import dask.array as da
import numpy as np

from mc import rayl, threads
from mc import world as w
from mc.core import Prune, check

SHAPE = (3, 4)
SUNZ = np.array([[10.0, 40.0, 84.0, 70.0], [-3.0, 86.0, np.nan, 30.0], [75.0, 79.0, 82.0, 5.0]])
TB3 = np.array([[310.03, 300.04, 295.02, 301.02], [300.06, 290.04, 300.01, np.nan], [288.02, 279.03, 301.04, 330.05]])
TB11 = np.array([[290.02, 285.04, 270.02, 288.03], [290.03, 285.02, 275.05, 280.04], [np.nan, 265.03, 281.02, 299.04]])
TBC = TB11 - 23.0
SATZ = np.array([[0.0, 40.0, 80.0, 12.0], [np.nan, 95.0, 20.0, 60.0], [33.0, 0.0, 45.0, 70.0]])
AZI = np.array([[0.0, 90.0, 180.0, 45.0], [45.0, 30.0, 10.0, 160.0], [77.0, 120.0, 33.0, 5.0]])
RED = np.array([[10.0, 20.0, 50.0, 90.0], [100.0, 5.0, 25.0, 0.0], [40.0, 30.0, 19.0, 60.0]])
RAD = np.linspace(2e5, 8e6, 12).reshape(SHAPE)
BANDS = {"M12": {"det-1": w.tri_band(3.7, 0.1, 11)}, "M3": {"det-1": w.tri_band(0.488, 0.02, 9)},
         "M5": {"det-1": w.tri_band(0.67, 0.03, 9)}}


def operations(objs):
    """name -> (arrays, function of the arrays)."""
    from pyspectral.blackbody import blackbody_rad2temp, blackbody_wn_rad2temp
    from pyspectral.rayleigh import Rayleigh

    def emissive(tb_form):
        def func(*arrays):
            objs["calc"].reflectance_from_tbs(*arrays)
            return objs["calc"].emissive_part_3x(tb=tb_form)
        return func

    calc = lambda name: objs[name]  # noqa
    return {
        "inverse": ([RAD], lambda r: blackbody_rad2temp(10.8e-6, r)),
        "inverse-wn": ([RAD * 1e-9], lambda r: blackbody_wn_rad2temp(92000.0, r)),
        "table": ([TB3], lambda t: calc("conv").tb2radiance(t, lut=objs["lut"])["radiance"]),
        "temperature": ([RAD], lambda r: calc("conv").radiance2tb(r)),
        "reflectance": ([SUNZ, TB3, TB11], lambda *a: calc("calc").reflectance_from_tbs(*a)),
        "reflectance-co2": ([SUNZ, TB3, TB11, TBC], lambda *a: calc("calc").reflectance_from_tbs(*a[:3], tb_ir_co2=a[3])),
        "reflectance-nolimit": ([SUNZ, TB3, TB11], lambda *a: calc("nolimit").reflectance_from_tbs(*a)),
        "emissive-tb": ([SUNZ, TB3, TB11], emissive(True)), "emissive-rad": ([SUNZ, TB3, TB11], emissive(False)),
        "rayleigh": ([SUNZ, SATZ, AZI], lambda *a: calc("ray").get_reflectance(*a, "M3")),
        "rayleigh-other": ([SUNZ, SATZ, AZI], lambda *a: calc("ray").get_reflectance(*a, "M5")),
        "rayleigh-red": ([SUNZ, SATZ, AZI, RED], lambda *a: calc("ray").get_reflectance(*a[:3], 0.5, a[3])),
        "rayleigh-range": ([SUNZ, SATZ, AZI, RED], lambda *a: calc("ray").get_reflectance(*a[:3], 1.6, a[3])),
        "reduction": ([SUNZ, RED], lambda *a: Rayleigh.reduce_rayleigh_highzenith(*a, 70.0, 90.0, 1.0)),
        "limb": ([TB11, SATZ], lambda *a: calc("limb").get_correction(a[1], "M15", a[0])),
    }


def make_objects():
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rayleigh import Rayleigh
    objs = {"calc": Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0),
            "nolimit": Calculator("Suomi-NPP", "viirs", "M12", solar_flux=3.0, masking_limit=None),
            "conv": RadTbConverter("Suomi-NPP", "viirs", "M12"), "ray": Rayleigh("Suomi-NPP", "viirs"),
            "limb": AtmosphericalCorrection("Suomi-NPP", "viirs")}
    path = os.path.join(w.fresh_dir("lut"), "t.npz")
    objs["conv"].make_tb2rad_lut(path)
    lut = objs["conv"].read_tb2rad_lut(path)
    objs["lut"] = {"tb": np.array(lut["tb"]), "radiance": np.array(lut["radiance"])}
    return objs


def fill(store):
    store.current()
    w.write_rsr(store.rsr_path("viirs", "Suomi-NPP"), BANDS, "Suomi-NPP", "viirs", dtype="f8")
    rayl.write(os.path.join(store.rayleigh_dir, "marine_clean_aerosol", "rayleigh_lut_us-standard.h5"), rayl.lut(3, 0.0, 1.3))
    return store


def same(got, want, text):
    got = np.asarray(got)
    check(got.shape == want.shape and got.dtype == want.dtype, "%s: %s %s instead of %s %s", text, got.shape, got.dtype,
          want.shape, want.dtype)
    rtol = 1e-12 if want.dtype == np.dtype("f8") else 2e-6
    check(w.close(got, want, rtol, rtol), "%s: %s", text, w.worst(got, want))


def run(ctx):
    with fill(w.Store()):
        _run(ctx)


def _run(ctx):
    procs = w.PerProcess(lambda _: {})

    def world():
        mine = procs[0]
        if not mine:
            mine["objs"] = make_objects()
            mine["ops"] = operations(mine["objs"])
            mine["ref"] = {}
        return mine

    def reference(name, dtype, shape):
        mine = world()
        key = (name, dtype, shape)
        if key not in mine["ref"]:
            arrays, func = mine["ops"][name]
            mine["ref"][key] = w.to_np(func(*[a.astype(dtype).reshape(shape) for a in arrays]))
        return mine["ref"][key]

    names = list(operations({}))
    shapes = [SHAPE, (12,), (1, 12), (2, 2, 3)]

    def chunkings(ch):
        name = ch.choose("operation", names)
        shape = ch.choose("shape", shapes if name != "limb" else [SHAPE, (1, 12)])
        dtype = ch.choose("dtype", ["f8", "f4"])
        every = [w.chunkings(n) if n < 6 or ctx.thorough else w.chunkings(n)[::37] for n in shape]
        chunks = ch.choose("chunks", list(itertools.product(*every)))
        want = reference(name, dtype, shape)
        arrays, func = world()["ops"][name]
        args = [da.from_array(a.astype(dtype).reshape(shape), chunks=chunks) for a in arrays]
        got = func(*args)
        check(isinstance(got, da.Array), "%s gave %s", name, type(got))
        check(got.shape == shape and got.dtype == np.dtype(dtype), "%s: declared %s %s", name, got.shape, got.dtype)
        same(got.compute(), want, "%s %s" % (name, chunks))
        ch.count(want.size)
        ch.state(name, shape, dtype, len(list(itertools.product(*chunks))))

    ctx.explore("chunkings", chunkings, workers=8, split=2)

    # ---- blocks that are all alike but for one pixel, next to a block of another kind
    def company(ch):
        name = ch.choose("operation", names)
        rest = ch.choose("other block", ctx.pick([7], range(12)))
        idx = w.company(ch, range(12))
        idx = np.stack([np.full(idx.size, rest), idx])
        arrays, func = world()["ops"][name]
        parts = [np.ascontiguousarray(a.ravel()[idx]) for a in arrays]
        want = w.to_np(func(*parts))
        for chunks in ((1, -1), (2, 10)):
            got = func(*[da.from_array(a, chunks=chunks) for a in parts])
            same(got.compute(scheduler="sync"), want, "%s %s %s" % (name, chunks, idx[1, [0, 1, -1]]))
            ch.count(want.size)
        ch.state(name, rest, idx[1, 0], idx[1, 1])

    ctx.explore("company", company, workers=8, split=2)

    # ---- arguments cut differently
    cuts = [((3,), (4,)), ((1, 2), (4,)), ((2, 1), (2, 2)), ((1, 1, 1), (1, 3))]

    def different(ch):
        name = ch.choose("operation", [n for n in names if len(operations({})[n][0]) > 1])
        arrays, func = world()["ops"][name]
        some = cuts if ctx.thorough or len(arrays) < 4 else cuts[:3]
        chunks = [ch.choose("chunks of argument %d" % num, some) for num in range(len(arrays))]
        dtype = ch.choose("dtype", ["f8", "f4"]) if ctx.thorough else "f8"
        want = reference(name, dtype, SHAPE)
        got = func(*[da.from_array(a.astype(dtype), chunks=c) for a, c in zip(arrays, chunks)])
        check(isinstance(got, da.Array), "%s gave %s", name, type(got))
        check(got.shape == SHAPE and got.dtype == np.dtype(dtype), "%s: declared %s %s", name, got.shape, got.dtype)
        same(got.compute(), want, "%s %s" % (name, chunks))
        ch.count(want.size)
        ch.state(name, len(set(chunks)))

    ctx.explore("different", different, workers=8, split=2)

    # ---- every order of the tasks
    limit = ctx.pick(2, 5)

    def orders(ch):
        name = ch.choose("operation", names)
        chunks = ch.choose("chunks", [((3,), (2, 2)), ((1, 2), (4,)), ((1, 1, 1), (4,)), ((1, 2), (1, 3))] +
                           ([((3,), (1, 1, 1, 1))] if ctx.thorough else []))
        other = ch.choose("together with", [None] + [n for n in ("reflectance-co2", "rayleigh-other", "emissive-rad")
                                                     if n.split("-")[0] == name.split("-")[0] and n != name])
        if other and len(list(itertools.product(*chunks))) > 2:
            raise Prune()
        wanted = [name] + ([other] if other else [])
        lazy = []
        for one in wanted:
            arrays, func = world()["ops"][one]
            lazy.append(func(*[da.from_array(a, chunks=chunks) for a in arrays]))
        num, deviations = [0], [0]

        def choose(ready):
            num[0] += 1
            if deviations[0] >= limit:
                return ready[0]
            key = ch.choose("task%d" % num[0], ready)
            deviations[0] += key != ready[0]
            return key

        got = dask.compute(*lazy, scheduler=threads.ordered_get(choose))
        for one, res in zip(wanted, got):
            same(res, reference(one, "f8", SHAPE), "%s in this order" % one)
        ch.count(12 * len(wanted))
        ch.state(wanted, chunks, num[0])

    ctx.explore("orders", orders, workers=8, split=3, budget_s=ctx.pick(240, None))

    # ---- every interleaving of two threads
    pairs = [(n, n) for n in names if n not in ("rayleigh-range",)] + \
        [("rayleigh", "rayleigh-other"), ("rayleigh", "rayleigh-red"), ("reflectance", "reflectance-co2"),
         ("reflectance", "emissive-tb"), ("reflectance", "reflectance-nolimit"), ("inverse", "inverse-wn"), ("table", "reflectance")]
    bound = ctx.pick(2, 3)

    def interleavings(ch):
        one, two = ch.choose("operations", pairs)
        chunks = ((1, 2), (4,))
        lazy = []
        for name in dict.fromkeys((one, two)):
            arrays, func = world()["ops"][name]
            lazy.append(func(*[da.from_array(a, chunks=chunks) for a in arrays]))
        blocks = [lazy[0].blocks[0], lazy[-1].blocks[1]]
        count = [0]

        def decide(options):
            count[0] += 1
            return ch.choose("line%d" % count[0], options)

        control = threads.Controller(decide, bound)
        got = control.run([lambda b=b: b.compute(scheduler="synchronous") for b in blocks])
        same(got[0], reference(one, "f8", SHAPE)[:1], "%s, first thread" % one)
        same(got[1], reference(two, "f8", SHAPE)[1:], "%s, second thread" % two)
        ch.count(12)
        ch.state(one, two, count[0], control.switches)

    ctx.explore("interleavings", interleavings, workers=8, split=2, budget_s=ctx.pick(240, None))

    # ---- nothing is evaluated while the result is built
    def lazy(ch):
        name = ch.choose("operation", names)
        which = ch.choose("container", ["delayed", "scheduler", "slices"])
        touched = []

        def source(block_info=None, arr=None):
            touched.append(1)
            loc = block_info[None]["array-location"]
            return arr[tuple(slice(*sl) for sl in loc)]

        arrays, func = world()["ops"][name]
        reference(name, "f8", SHAPE)
        args = [da.map_blocks(source, arr=np.array(a), chunks=((2, 1), (3, 1)), dtype=a.dtype, meta=np.array((), a.dtype))
                if which != "scheduler" else da.from_array(a, chunks=2) for a in arrays]
        if which == "scheduler":
            with dask.config.set(scheduler=threads.forbidden_get):
                got = func(*args)
        else:
            got = func(*args)
        check(not touched, "%s evaluated %d blocks while being built", name, len(touched))
        if which == "slices":
            same(got.blocks[1, 1].compute(), reference(name, "f8", SHAPE)[2:, 3:], "%s, one block" % name)
        else:
            same(got.compute(), reference(name, "f8", SHAPE), name)

    ctx.explore("lazy", lazy)
    ctx.assume("All arguments of a call are chunked, or none.")
    ctx.assume("Thread switches happen between Python lines of pyspectral; at most %d preemptions; two threads." % bound)
    ctx.assume("Orders of tasks with up to %d departures from the order of their keys." % limit)
