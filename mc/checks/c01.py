"""C01: kill points and interleavings of processes that create and read the same Tb-to-radiance table."""
import gc
import os
import shutil
import tempfile
import time

import numpy as np

from mc import dpor, fs, nir, threads
from mc import world as w
from mc.core import Violation, check, digest

BANDS = {"M12": {"det-1": w.tri_band(3.70, 0.09, 9), "det-2": w.tri_band(3.72, 0.09, 9)},
         "I4": {"det-1": w.tri_band(3.78, 0.19, 9)}}
# every entry of the table is used for each of the two bands
TBS = 150.05 + np.arange(2100) / 10.0
SUNZ = np.repeat([0.0, 10.0], 2100)
TB3 = np.concatenate([TBS, np.full(2100, 300.05)])
TB11 = np.concatenate([np.full(2100, 270.05), TBS])
PROGRAMS = {"M12": ("M12", "det-1"), "M12 other detector": ("M12", "det-2"), "I4": ("I4", "det-1")}


class Worlds:
    """A directory with responses for all executions, and one for the tables of each execution."""

    def __init__(self, configured=None):
        self.root = w.fresh_dir("c1")
        self.rsr = os.path.join(self.root, "rsr")
        self.configured = configured
        # one configured name per band: that of the first detector
        self.programs = [n for n in PROGRAMS if not configured or PROGRAMS[n][1] == "det-1"]
        w.write_rsr(os.path.join(self.rsr, "rsr_viirs_Suomi-NPP.h5"), BANDS, "Suomi-NPP", "viirs", dtype="f8")
        from pyspectral import utils
        with open(os.path.join(self.rsr, utils.RSR_DATA_VERSION_FILENAME), "w") as out:
            out.write(utils.RSR_DATA_VERSION)
        # fills the caches of the libraries once for all processes
        env, temp, top = os.environ.get("TMPDIR"), tempfile.tempdir, self.fresh()
        try:
            self.program("M12", top)()
        except Exception:
            pass
        finally:
            os.environ["TMPDIR"], tempfile.tempdir = env, temp
            shutil.rmtree(top, ignore_errors=True)
        self.reference = {name: self.undisturbed(name) for name in self.programs}

    def fresh(self, state=()):
        """A new directory of tables with the given files."""
        top = w.fresh_dir("t1")
        for name in ("cache", "tmp"):
            os.makedirs(os.path.join(top, name))
        fs.plant(top, dict(state))
        return top

    def program(self, name, top):
        """Build a calculator and use it."""
        band, det = PROGRAMS[name]

        def body():
            from pyspectral.near_infrared_reflectance import Calculator
            tempfile.tempdir = os.path.join(top, "tmp")
            os.environ["TMPDIR"] = tempfile.tempdir
            # temporary files are on another file system than the tables
            fs.lib().mc_fence(tempfile.tempdir.encode())
            # the file name of a configuration is the one of the calling process
            options = {"rsr_dir": self.rsr, "rayleigh_dir": self.root, "tb2rad_dir": os.path.join(top, "cache"),
                       "download_from_internet": False}
            if self.configured:
                options["Suomi-NPP-viirs"] = {"tb2rad_lut_filename": {
                    "m12": os.path.join(top, "cache", self.configured), "i4": os.path.join(top, "cache", "i4" + self.configured)}}
            conf = os.path.join(w.fresh_dir("conf"), "pyspectral.yaml")
            with w.config(conf, options):
                calc = Calculator("Suomi-NPP", "viirs", band, detector=det, solar_flux=2.0)
                return w.to_np(calc.reflectance_from_tbs(SUNZ, TB3, TB11))

        return body

    def undisturbed(self, name):
        top = self.fresh()
        try:
            outcome, value = fs.child(self.program(name, top))
            check(outcome == "ok", "a calculator with an empty cache: %s", value)
            band, det = PROGRAMS[name]
            model = nir.Band(*BANDS[band][det], flux=2.0)
            pos = np.arange(0, 4200, 97)
            want, margin, _, _ = model.model(SUNZ[pos], TB3[pos], TB11[pos])
            pos, want = pos[np.abs(margin) > 1e-6], want[np.abs(margin) > 1e-6]
            check(w.close(value[pos], want, 1e-6, 1e-9), "%s with an empty cache is wrong: %s", name, w.worst(value[pos], want))
            return value
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def judge(self, name, outcome, value, text):
        check(outcome == "ok", "%s: %s", text, value)
        want = self.reference[name]
        check(value.shape == want.shape and np.allclose(value, want, rtol=1e-9, atol=1e-12, equal_nan=True),
              "%s gives other reflectances: %s", text, w.worst(value, want))

    def later(self, top, text):
        """Calculators built afterwards."""
        for num, name in enumerate(self.programs + self.programs[:1]):
            outcome, value = fs.child(self.program(name, top))
            self.judge(name, outcome, value, "%s; %s calculator of %s" % (text, "one more" if num >= len(self.programs) else
                                                                        "a later", name))


def canonical(state):
    """Names of temporary files do not matter, their content does."""
    fixed = sorted((k, v) for k, v in state.items() if "tmp" not in os.path.basename(k))
    loose = sorted(repr(v) for k, v in state.items() if "tmp" in os.path.basename(k))
    return digest((fixed, loose))


def run(ctx):
    gc.collect()
    gc.freeze()
    worlds = {"automatic name": Worlds(), "configured name": Worlds("own_table.npz")}

    # ---- one process at a time is killed, or finds the disk full; then others follow
    points_memo, after_memo, good = {}, {}, set()

    def points(which, name, state, key):
        if (which, name, key) not in points_memo:
            world = worlds[which]
            top = world.fresh(state)
            try:
                outcome, value = fs.child(world.program(name, top), watch=top, count=True)
                steps = value[1]
                world.judge(name, outcome, value[0], "undisturbed calculator of %s from %s" % (name, sorted(state)))
            finally:
                shutil.rmtree(top, ignore_errors=True)
            points_memo[which, name, key] = fs.kill_points(steps) + fs.full_points(steps)
        return points_memo[which, name, key]

    def crashes(ch):
        which = ch.choose("table", sorted(worlds))
        world = worlds[which]
        state, path, trail = {}, (which,), []
        for level in range(ctx.pick(2, 3)):
            name = ch.choose("process", (["none"] if level else []) + (world.programs if ctx.thorough or not level else
                                                                       world.programs[:1]))
            if name == "none":
                break
            options = points(which, name, state, path)
            if level and not ctx.thorough:
                options = [p for p in options if p[2] in (2, 4)]
            if not options:
                break
            point = ch.choose("disturbance", [Named(p) for p in options]).what
            path += (name, point[1:])
            trail.append("%s %s" % (name, point[0]))
            if path not in after_memo:
                text = "; ".join(trail)
                top = world.fresh(state)
                try:
                    outcome, value = fs.child(world.program(name, top), watch=top, arm=point[1:])
                    if point[2] == 5:
                        # the disk is full: an error, or a result that is right
                        check(outcome != "killed", "%s: killed", text)
                        if outcome == "ok":
                            world.judge(name, outcome, value, text)
                        else:
                            check("OSError" in value.split("\n")[0] or "No space" in value, "%s: %s", text, value)
                    else:
                        check(outcome == "killed", "%s: not killed, %s", text, outcome)
                    after = fs.tree(top)
                    after_memo[path] = after
                    key = canonical(after)
                    ch.state(which, key)
                    if (which, key) not in good:
                        world.later(top, text)
                        good.add((which, key))
                    else:
                        after_memo[path] = None
                finally:
                    shutil.rmtree(top, ignore_errors=True)
            state = after_memo[path]
            if state is None:
                break
        ch.count(1)

    ctx.explore("crashes", crashes, workers=8, split=3)

    # ---- interleavings
    settings = []
    full = {}
    for which, world in worlds.items():
        top = world.fresh()
        fs.child(world.program("M12", top))
        full[which] = fs.tree(top)
        shutil.rmtree(top, ignore_errors=True)
    for which in worlds:
        for names in (("M12", "M12"), ("M12", "M12 other detector"), ("M12", "I4")):
            if which == "configured name" and names[1] == "M12 other detector":
                continue
            settings.append(Setting(which, names, {}, None, "empty"))
        settings.append(Setting(which, ("M12", "M12"), full[which], None, "with table"))
    trio = ("M12", "M12", "M12")
    settings.append(Setting("automatic name", trio, {}, None, "empty"))
    for which, world in worlds.items():
        steps = steps_of(world, "M12")
        for num, (kind, size) in enumerate(steps, 1):
            for torn in (0,) + ((2,) if kind == "W" and size > 1 else ()):
                settings.append(Setting(which, ("M12", "M12"), {}, (0, num, torn), "empty"))
                if ctx.thorough or (num, torn) in ((len(steps), 0), (len(steps) // 2, 0)):
                    settings.append(Setting(which, trio, {}, (0, num, torn), "empty"))
        # what a killed process left behind
        for num, torn in ((1, 4), (len(steps) // 2, 2), (len(steps), 0), (len(steps), 4)) if steps else ():
            top = world.fresh()
            fs.child(world.program("M12", top), watch=top, arm=(num, torn))
            settings.append(Setting(which, ("M12", "M12"), fs.tree(top), None, "after a kill at step %d" % num))
            shutil.rmtree(top, ignore_errors=True)
    interleave(ctx, worlds, settings)
    in_threads(ctx, worlds["automatic name"])
    for world in worlds.values():
        shutil.rmtree(world.root, ignore_errors=True)
    ctx.assume("Threads switch between Python lines of pyspectral; at most %d preemptions; two threads." % ctx.pick(1, 2))
    ctx.assume("The directory of temporary files and the one of the tables are on different file systems.")
    ctx.assume("A killed process leaves what its completed system calls wrote; one system call is one step.")
    ctx.assume("Steps are dependent if they touch the same name or file and one of them changes it.")


PAIRS = [("M12", "M12"), ("M12", "M12 other detector"), ("M12", "I4"), ("I4", "M12")]


def in_threads(ctx, world):
    """Two threads of one process build calculators: all interleavings of the lines of pyspectral within a bound."""
    some = slice(0, None, 131)

    def body(ch):
        names = ch.choose("calculators", PAIRS)
        points = [ch.choose("first switch at line", [Named((n, n)) for n in range(lines[names])]).what[0]]
        if ctx.thorough:
            points.append(ch.choose("second switch after", [Named((n, n)) for n in range(1, lines[names] + 1)]).what[0])
        execute(names, points, ch)

    def execute(names, points, ch=None):
        from pyspectral.near_infrared_reflectance import Calculator
        seen = [0]

        def decide(options):
            hit = bool(points) and seen[0] == points[0]
            seen[0] = 0 if hit else seen[0] + 1
            if hit:
                del points[0]
            return options[1] if hit else options[0]

        def build(name):
            def work():
                band, det = PROGRAMS[name]
                calc = Calculator("Suomi-NPP", "viirs", band, detector=det, solar_flux=2.0)
                return w.to_np(calc.reflectance_from_tbs(SUNZ[some], TB3[some], TB11[some]))
            return work

        top = world.fresh()
        options = {"rsr_dir": world.rsr, "rayleigh_dir": world.root, "tb2rad_dir": os.path.join(top, "cache"),
                   "download_from_internet": False}
        try:
            with w.config(os.path.join(top, "pyspectral.yaml"), options):
                control = threads.Controller(decide, 2)
                got = control.run([build(n) for n in names])
                again = [build(n)() for n in names]
        finally:
            shutil.rmtree(top, ignore_errors=True)
        for num, name in enumerate(names):
            want = world.reference[name][some]
            for value, text in ((got[num], "built in a thread"), (again[num], "built afterwards")):
                check(np.allclose(value, want, rtol=1e-9, atol=1e-12, equal_nan=True), "calculator of %s %s: %s", name, text,
                      w.worst(value, want))
        if ch is not None:
            ch.count(4)
            ch.state(names, control.lines, control.switches)
        return control.steps[0]

    try:
        lines = {names: execute(names, []) for names in PAIRS}
    except Exception as err:
        ctx.fail_plain("threads", "two threads, one after the other: %r" % err)
        return
    ctx.explore("threads", body, workers=8, split=2, budget_s=ctx.pick(200, None))


class Named:
    def __init__(self, what):
        self.what, self.name = what, what[0]


def steps_of(world, name):
    top = world.fresh()
    try:
        outcome, value = fs.child(world.program(name, top), watch=top, count=True)
        return value[1] if outcome == "ok" else []
    finally:
        shutil.rmtree(top, ignore_errors=True)


class Setting:
    def __init__(self, which, names, state, crash, text):
        self.which, self.names, self.state, self.crash = which, names, state, crash
        self.name = "%s, %s, processes %s%s" % (which, text, " and ".join(names), "" if not crash else
                                                ", first one killed at step %d%s" % (crash[1], " half done" if crash[2] else ""))


_WORK = None


def one_setting(num):
    """All interleavings of one setting (in a worker process)."""
    worlds, settings, deadline, limit = _WORK
    setting = settings[num]
    out = {"setting": num, "executions": 0, "blocked": 0, "steps": 0, "states": set(), "violations": [], "complete": True,
           "sample": None}
    search = dpor.search(*parts(worlds, setting, out["states"]), crash=setting.crash)
    for schedule, trace, message, blocked in search:
        out["executions"] += 1
        out["blocked"] += bool(blocked)
        out["steps"] += len(trace)
        if out["sample"] is None and not blocked:
            out["sample"] = ["%d:%s" % (p, s.kind) for p, s in trace]
        if message:
            out["violations"].append((schedule, ["%d %s" % (p, s.text) for p, s in trace], message))
            if len(out["violations"]) >= 2:
                out["complete"] = False
                break
        if time.time() > deadline or out["executions"] >= limit:
            out["complete"] = False
            break
    search.close()
    return out


def parts(worlds, setting, states):
    world = worlds[setting.which]
    current = []

    def make():
        top = world.fresh(setting.state)
        current[:] = [top]
        return [world.program(n, top) for n in setting.names], top, lambda: shutil.rmtree(top, ignore_errors=True)

    def judge(results, trace):
        for num, (outcome, value) in enumerate(results):
            if setting.crash and setting.crash[0] == num:
                continue
            world.judge(setting.names[num], outcome, value, "%s: process %d" % (setting.name, num))
        key = canonical(fs.tree(current[0]))
        if key not in states:
            world.later(current[0], setting.name)
            states.add(key)

    return make, judge


def interleave(ctx, worlds, settings):
    global _WORK
    import multiprocessing
    part = "interleavings"
    if ctx.replay is not None:
        if ctx.replay.get("part") == part:
            setting = settings[ctx.replay["choices"][0]]
            make, judge = parts(worlds, setting, set())
            programs, top, cleanup = make()
            try:
                trace, results, _ = dpor.execute(programs, top, [], schedule=ctx.replay["choices"][1:], crash=setting.crash)
                judge(results, trace)
                ctx.traces += 1
            except Violation as err:
                ctx.traces += 1
                ctx.fail(part, ctx.replay["choices"], [("setting", setting.name)], str(err))
            finally:
                cleanup()
        return
    t0 = time.time()
    budget = ctx.pick(240, 5 * 3600)
    _WORK = (worlds, settings, t0 + budget, ctx.pick(4000, 10 ** 6))
    order = sorted(range(len(settings)), key=lambda n: (-len(settings[n].names), settings[n].crash is not None))
    totals = {"states": 0, "transitions": 0, "executions": 0, "evaluations": 0, "complete": True, "redundant": 0}
    with multiprocessing.get_context("fork").Pool(8) as pool:
        try:
            for out in pool.imap_unordered(one_setting, order):
                setting = settings[out["setting"]]
                ctx.traces += out["executions"] - out["blocked"]
                ctx.transitions += out["steps"]
                ctx.evals += out["executions"]
                ctx.states.update(digest((setting.name, s)) for s in out["states"])
                totals["executions"] += out["executions"]
                totals["redundant"] += out["blocked"]
                totals["transitions"] += out["steps"]
                totals["states"] += len(out["states"])
                if not out["complete"]:
                    totals["complete"] = ctx.exhaustive = False
                if setting.crash is None:
                    totals[setting.name] = "%d executions, %s" % (out["executions"], "complete" if out["complete"] else "cut")
                if len(ctx.samples) < 9 and out["sample"]:
                    ctx.samples.append({"part": part, "trace": [setting.name] + out["sample"]})
                for schedule, labels, message in out["violations"]:
                    ctx.fail(part, [out["setting"]] + schedule, [("setting", setting.name)] + [("step", x) for x in labels],
                             message)
        finally:
            pool.terminate()
    totals["wall_s"] = round(time.time() - t0, 2)
    ctx.parts[part] = totals
