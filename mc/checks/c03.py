"""C03: disturbed updates of the data stores.

State: the files of a store.  Step: an update that is killed at a file system step, or meets a network fault or a full
disk.  All states that can be reached by any number of disturbed updates are visited; in each of them it is decided
whether the store counts as up to date, and what an undisturbed update makes of it.
"""
import gc
import os
import random
import shutil
import warnings

import requests

from mc import fs
from mc import world as w
from mc.checks.c04 import A, RSR, needed, url, version_file
from mc.checks.c21 import in_child
from mc.core import Prune, check, digest
from mc.env import NET

UP = "the store counts as up to date"


def archive(name, shape, version=None):
    """Members of a published archive in different orders."""
    version = (needed()[name] if version is None else version).encode() + b"\n"
    rnd = random.Random(7)
    data = [("one_%s.h5" % name, bytes(rnd.randrange(256) for _ in range(60))), ("two.h5", b"second file " * 3)]
    vers = [(version_file(name), version)]
    if shape == "last":
        return data + vers
    if shape == "first":
        return vers + data
    if shape == "middle":
        return data[:1] + vers + data[1:]
    if shape == "dots":
        return [("./", None)] + [("./" + key, val) for key, val in vers + data]
    if shape == "folder":
        return data[:1] + vers + [("sub", None), ("sub/three.h5", b"third file")]
    if shape == "large":
        return vers + [("large.h5", rnd.randbytes(1300000))] + data
    raise ValueError(shape)


def as_files(members):
    out = {}
    for name, data in members:
        name = os.path.normpath(name)
        if name == ".":
            continue
        if os.path.dirname(name):
            out.setdefault(os.path.dirname(name), None)
        out[name] = data
    return out


class Case:
    """One store and one archive."""

    def __init__(self, name, shape):
        self.name, self.shape = name, shape
        self.implicit = "open" if name == RSR else "correction"
        members = archive(name, shape)
        self.files = as_files(members)
        self.tgz = w.make_tgz(members)
        self.memo, self.judged, self.seen, self.options, self.expand = {}, {}, {}, {}, {}

    @property
    def text(self):
        return "%s, version file %s" % (self.name, self.shape)

    def worth(self, state, left):
        """Whether there is something new to explore from this state."""
        key = key_of(state)
        if self.seen.get(key, -1) >= left:
            return False
        self.seen[key] = left
        return True

    def initial(self, start):
        if start == "missing":
            return {} if self.name == RSR else None
        old = {key: b"old content of the file" for key, val in self.files.items() if val is not None}
        # as long as the new file, and longer than it
        old["one_%s.h5" % self.name] = b"old content " * 5
        old["two.h5"] = b"old content " * 4
        old["own file"] = b"something else"
        old[version_file(self.name)] = b"v0.0.1\n"
        if start == "half":
            # an update that was interrupted by the first release of the package
            old.pop("two.h5", None)
            del old[version_file(self.name)]
        if start == "current":
            old.update(self.files)
        return old

    def where(self, root):
        return os.path.join(root, "rsr") if self.name == RSR else os.path.join(root, "rayleigh", self.name)

    def update(self, how):
        from pyspectral import rayleigh, rsr_reader, utils
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "open":
                try:
                    rsr_reader.RelativeSpectralResponse("Suomi-NPP", "viirs")
                except (FileNotFoundError, OSError) as err:
                    # the archive has no real response file
                    if isinstance(err, requests.exceptions.RequestException) or "rsr_viirs" not in str(err):
                        raise
            elif how == "check" and self.name == RSR:
                rsr_reader.check_and_download()
            elif how == "download" and self.name == RSR:
                utils.download_rsr()
            elif how == "correction":
                rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=self.name)
            elif how == "check":
                rayleigh.check_and_download(aerosol_types=[self.name])
            elif how == "download":
                utils.download_luts(aerosol_types=[self.name])
            else:
                raise ValueError(how)

    # ---- one process
    def here(self, state, answer, how, after):
        """Update in this process: (result of after(action), files afterwards)."""
        root = w.fresh_dir("c3")
        conf = w.fresh_dir("conf")
        try:
            where = self.where(root)
            os.makedirs(os.path.join(root, "rsr"))
            os.makedirs(os.path.join(root, "rayleigh"))
            if state is not None:
                fs.plant(where, state)
            with w.config(os.path.join(conf, "pyspectral.yaml"),
                          {"rsr_dir": os.path.join(root, "rsr"), "rayleigh_dir": os.path.join(root, "rayleigh"),
                           "tb2rad_dir": root, "download_from_internet": True}):
                def action():
                    w.serve(lambda address: answer if address == url(self.name) else None)
                    NET.requests.clear()
                    try:
                        self.update(how)
                        return None, list(NET.requests)
                    except Exception as err:
                        return "%s: %s" % (type(err).__name__, err), list(NET.requests)

                result = after(action, root)
            return result, fs.tree(where) if os.path.isdir(where) else None
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(conf, ignore_errors=True)

    def run(self, state, answer, how, arm=None, count=False):
        """In a process of its own: outcome, value, files afterwards."""
        result, files = self.here(state, answer, how,
                                  lambda action, root: fs.child(action, watch=root, arm=arm, count=count))
        return result + (files,)

    def calmly(self, state, how):
        """Undisturbed update: error, requests, files afterwards."""
        result, files = self.here(state, w.Served(self.tgz, length=how != "check"), how, lambda action, root: action())
        return result + (files,)

    # ---- disturbances
    def disturbances(self, state, how):
        key = key_of(state), how
        if key not in self.options:
            outcome, value, after = self.run(state, w.Served(self.tgz), how, count=True)
            check(outcome == "ok", "undisturbed update from %s ended with %s %s", show(state), outcome, value)
            steps = value[1]
            out = [("kill",) + item for item in fs.kill_points(steps)]
            out += [("kill",) + item for item in fs.full_points(steps)]
            out += [("net", text, served) for text, served in self.faults()]
            self.options[key] = out
        return self.options[key]

    def faults(self):
        size = len(self.tgz)
        for status in (403, 404, 500, 503):
            yield "status %d" % status, w.Served(b"<html>sorry</html>", status)
            if status in (404, 503):
                # an answer that is no success does not count, whatever comes with it
                yield "status %d with another archive" % status, w.Served(
                    w.make_tgz([(version_file(self.name), self.files[version_file(self.name)])]), status)
        for exc in (requests.exceptions.ConnectionError("refused"), requests.exceptions.Timeout("too slow"),
                    requests.exceptions.SSLError("certificate")):
            yield type(exc).__name__, w.Served(exc=exc)
        yield "a web page instead of the archive", w.Served(b"<html>please log in</html>")
        yield "nothing", w.Served(b"")
        yield "nothing, no length", w.Served(b"", length=False)
        for cut in sorted({0, 1, 9, 10, 11, size // 4, size // 2, 3 * size // 4, size - 9, size - 8, size - 1}):
            yield "reset after %d of %d bytes" % (cut, size), w.Served(self.tgz, cut=cut)
            yield "ended after %d of %d bytes" % (cut, size), w.Served(self.tgz[:cut], length=False)

    def disturb(self, state, how, item, text):
        """State after the disturbed update."""
        if item[0] == "kill":
            outcome, value, after = self.run(state, w.Served(self.tgz), how, arm=item[2:])
        else:
            outcome, value, after = self.run(state, item[2], how)
        if outcome != "killed":
            check(outcome == "ok", "%s: %s %s", text, outcome, value)
            if item[0] == "net" or item[3] == 5:
                self.verdict(value, after, text)
        return after

    def verdict(self, value, after, text):
        """Without an error the update has to be complete."""
        error, asked = value
        if error is None and asked:
            self.complete(after, text + ": no error was raised")

    # ---- judgement of a state
    def complete(self, state, text):
        state = state or {}
        for name, data in self.files.items():
            check(name in state, "%s, but %s is missing (%s)", text, name, show(state))
            got = state[name]
            if name == version_file(self.name):
                # the last line end does not matter
                got, data = got.strip(), data.strip()
            check(got == data, "%s, but %s is not complete: %r...", text, name, (got or b"")[:40])

    def judge(self, state, text):
        key = key_of(state)
        if key not in self.judged:
            self.judged[key] = in_child(lambda: self.decide(state, text))
        return self.judged[key]

    def decide(self, state, text):
        """Whether the store counts as up to date; what undisturbed updates make of it."""
        implicit = self.implicit
        verdicts = []
        for how in (implicit, "check"):
            error, asked, after = self.calmly(state, how)
            check(error is None, "%s, then undisturbed %s: %s", text, how, error)
            check(len(asked) <= 1, "%s, then %s: requested %s", text, how, asked)
            verdicts.append(not asked)
            if asked:
                self.settled(state, after, "%s, then undisturbed %s" % (text, how), implicit)
            else:
                check(key_of(state) == key_of(after), "%s, then %s changed files", text, how)
                self.complete(state, "%s: %s for %s" % (text, UP, how))
        check(len(set(verdicts)) == 1, "%s: %s and check disagree about being up to date", text, implicit)
        error, asked, after = self.calmly(state, "download")
        check(error is None and len(asked) == 1, "%s, then download: %s, requested %s", text, error, asked)
        self.settled(state, after, "%s, then undisturbed download" % text, implicit)
        return verdicts[0]

    def settled(self, before, after, text, implicit):
        self.complete(after, text)
        for name, data in after.items():
            if name in self.files or data is None:
                continue
            rest = name.lower().endswith((".tgz", ".tar", ".gz", ".part", ".tmp")) or (data and self.tgz.startswith(data[:10]))
            check(not rest, "%s: archive %s was left behind", text, name)
        if "own file" in (before or {}):
            check(after.get("own file") == before["own file"], "%s: a file that is not of the archive changed", text)
        error, asked, again = self.calmly(after, implicit)
        check(error is None and not asked and key_of(again) == key_of(after), "%s: the next %s gave %s, requested %s", text,
              implicit, error, asked)


def show(state):
    return "nothing" if not state else ", ".join("%s:%s" % (k, "dir" if v is None else len(v)) for k, v in sorted(state.items()))


class Item:
    def __init__(self, name, what=None):
        self.name, self.what = name, what


def key_of(state):
    return digest(state if state is None else sorted(state.items(), key=lambda item: item[0]))


def typical(item, half):
    """One of each kind."""
    if item[0] == "kill":
        return item[3] in (0, 2, 4)
    return item[1] in ("status 404", "ConnectionError") or "after %d of" % half in item[1]


STARTS = ("missing", "old", "half", "current")
SHAPES = ("first", "folder", "middle", "last", "dots")


def run(ctx):
    gc.collect()
    gc.freeze()
    deep = ctx.pick(SHAPES[:1], SHAPES)

    # ---- sequences of disturbed updates; a store that was seen before is not explored again
    def sequences(ch):
        case, depth = ch.choose("store", [Item("%s, version file %s" % (n, s), (Case(n, s), d)) for d, n, s in plan]).what
        start = ch.choose("start", STARTS)
        case = cases[case.name, case.shape, start]
        state = case.initial(start)
        path = (start,)
        trail = [start]
        left = depth
        if path not in case.memo:
            case.judge(state, "%s: %s" % (case.text, start))
            case.memo[path] = state
            case.expand[path] = case.worth(state, left)
        while left and case.expand[path]:
            ways = ["download"]
            if left == depth or ctx.thorough:
                ways = ["download", "check", case.implicit]
            options = [Item("none")]
            for how in ways:
                if how == "download" or not case.judged[key_of(state)]:
                    options += [Item("%s %s" % (how, o[1]), (how, o)) for o in case.disturbances(state, how)
                                if ctx.thorough or left == depth or typical(o, len(case.tgz) // 2)]
            item = ch.choose("disturbance", options)
            if item.what is None:
                break
            left -= 1
            path = path + (item.name,)
            trail.append(item.name)
            if path not in case.memo:
                text = "%s: %s" % (case.text, "; ".join(trail))
                state = case.disturb(state, item.what[0], item.what[1], text)
                up = case.judge(state, text)
                ch.state(case.name, case.shape, key_of(state), up)
                case.expand[path] = case.worth(state, left)
                case.memo[path] = state
            state = case.memo[path]
        ch.count(1)

    plan = [(2, n, s) for s in deep for n in (RSR, A)] + [(1, n, s) for s in SHAPES if s not in deep for n in (RSR, A)]
    cases = {(n, s, t): Case(n, s) for _, n, s in plan for t in STARTS}
    ctx.explore("sequences", sequences, workers=8, split=2)

    # ---- the transfer ends after any number of bytes
    exact = {(n, s): Case(n, s) for n in (RSR, A) for s in ctx.pick(SHAPES[:2], SHAPES)}

    def cuts(ch):
        case = ch.choose("store", [Item(c.text, c) for c in exact.values()]).what
        start = ch.choose("start", ["old"] if not ctx.thorough else STARTS)
        cut = ch.choose("bytes", range(len(case.tgz)))
        how = ch.choose("how", [case.implicit, "download"])
        served = ch.choose("end", [Item("reset", w.Served(case.tgz, cut=cut)), Item("end", w.Served(case.tgz[:cut], length=False))])
        text = "%s: %s, %s with %s after %d of %d bytes" % (case.text, start, how, served.name, cut, len(case.tgz))

        def body():
            state = case.initial(start)
            result, after = case.here(state, served.what, how, lambda action, root: action())
            case.verdict(result, after, text)
            return after

        after = in_child(body)
        ch.state(case.name, case.shape, key_of(after), case.judge(after, text))

    ctx.explore("cuts", cuts, workers=8, split=2)

    # ---- an archive of several transfer blocks
    large = {n: Case(n, "large") for n in (RSR, A)}

    def blocks(ch):
        case = ch.choose("store", [Item(c.text, c) for c in large.values()]).what
        start = ch.choose("start", ["old", "current"])
        state = case.initial(start)
        item = ch.choose("disturbance", [Item(o[1], o) for o in case.disturbances(state, "download")])
        if not ctx.thorough and item.what[0] == "kill" and item.what[2] > 12 and item.what[2] % 16 and item.what[2] < 80:
            raise Prune()
        text = "%s: %s, %s" % (case.text, start, item.name)
        after = case.disturb(state, "download", item.what, text)
        ch.state(case.name, case.shape, key_of(after), case.judge(after, text))

    ctx.explore("blocks", blocks, workers=8, split=2)
    ctx.assume("A killed process leaves what its completed system calls wrote (the machine itself keeps running).")
    ctx.assume("Version files are read by their first line; the archive carries its version file under the published name.")
