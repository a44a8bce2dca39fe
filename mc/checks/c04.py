"""C04: what is requested from where, and which files change, for every store state, setting and operation."""
import itertools
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from mc import world as w
from mc.checks.c05 import GOLD
from mc.checks.c21 import in_child
from mc.core import Prune, check
from mc.env import NET, REPO

A, B = "marine_clean_aerosol", "rayleigh_only"
REST = [t for t in GOLD["aerosol_types"] if t not in (A, B)]
C = "desert_aerosol"
RSR = "rsr"
RSR_FILE = "rsr_viirs_Suomi-NPP.h5"
NEED = {}


def needed():
    """The required versions are those of the code; names of version files and addresses are the published ones."""
    if not NEED:
        from pyspectral import utils
        NEED[RSR] = utils.RSR_DATA_VERSION
        for name in GOLD["aerosol_types"]:
            NEED[name] = utils.ATM_CORRECTION_LUT_VERSION[name]["version"]
    return NEED


def version_file(name):
    return GOLD["rsr_version_file"] if name == RSR else GOLD["lut_version"][name]["filename"]


def url(name):
    return GOLD["rsr_url"] if name == RSR else GOLD["lut_urls"][name]


class Content:
    """The published archives."""

    def __init__(self):
        path = os.path.join(w.fresh_dir("c4"), RSR_FILE)
        w.write_rsr(path, {"M12": {"det-1": w.tri_band(3.7, 0.1, 11)}, "M5": {"det-1": w.tri_band(0.65, 0.05, 11)}},
                    "Suomi-NPP", "viirs")
        with open(path, "rb") as inp:
            self.rsr = inp.read()
        self.files = {}
        self.tgz = {}
        for stale in (False, True):
            for name in [RSR] + GOLD["aerosol_types"]:
                version = "v0.0.7" if stale else needed()[name]
                files = {version_file(name): version.encode() + b"\n"}
                if name == RSR:
                    files[RSR_FILE] = self.rsr
                files["data_%s.h5" % name] = ("table of %s" % name).encode() * 5
                self.files[name, stale] = files
                self.tgz[name, stale] = w.make_tgz(list(files.items()))


def versions(name):
    """Label -> content of the version file."""
    need = needed()[name]
    return {"missing": None, "empty": b"", "old": b"v0.0.1\n", "newer": b"v99.0.0\n", "current": need.encode() + b"\n",
            "plain": need.encode(), "longer": need.encode() + b".1\n", "blank": b"\n" + need.encode() + b"\n",
            "two lines": need.encode() + b"\nmore\n", "padded": need.encode() + b" \t\n"}


CURRENT = ("current", "plain", "two lines", "padded")


class Model:
    """Files of every store and whether the store is current."""

    def __init__(self, content, state, stale):
        self.content, self.stale = content, stale
        self.files = {}
        for name, label in state.items():
            data = versions(name)[label]
            files = {} if data is None else {version_file(name): data, "data_%s.h5" % name: b"before"}
            if name == RSR and data is not None:
                files[RSR_FILE] = content.rsr
            files["private"] = b"not of the archive"
            self.files[name] = files
        self.download = None

    def current(self, name):
        data = self.files[name].get(version_file(name))
        if data is None:
            return False
        first = data.split(b"\n")[0].strip().decode()
        return first == needed()[name]

    def fetch(self, name, dest=None):
        where = self.files.setdefault(dest, {}) if dest else self.files[name]
        where.update(self.content.files[name, self.stale])
        return url(name)


def operations(root):
    """name -> (call, expectation: model -> list of addresses)."""
    from pyspectral import rayleigh, rsr_reader, utils
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter

    ops = {}
    elsewhere = os.path.join(root, "elsewhere")

    def implicit(name):
        return lambda m: [m.fetch(name)] if m.download and not m.current(name) else []

    def checked(names):
        return lambda m: [m.fetch(n) for n in names if not m.current(n)]

    def forced(names, dest=None):
        return lambda m: [m.fetch(n, dest) for n in names]

    def rsr_check(dest):
        return lambda m: [m.fetch(RSR, dest)] if m.download and not m.current(RSR) else []

    def nothing(m):
        return []

    def script(name, *args):
        def call():
            old = sys.argv
            sys.argv = [name] + list(args)
            try:
                runpy.run_path(os.path.join(REPO, "bin", name), run_name="__main__")
            finally:
                sys.argv = old
        return call

    every = GOLD["aerosol_types"]
    ops["open"] = (lambda: rsr_reader.RelativeSpectralResponse("Suomi-NPP", "viirs"), implicit(RSR))
    ops["open-file"] = (lambda: rsr_reader.RelativeSpectralResponse(filename=os.path.join(root, "own", RSR_FILE)), nothing)
    ops["open-store-file"] = (lambda: rsr_reader.RelativeSpectralResponse(filename=os.path.join(root, RSR, RSR_FILE)), nothing)
    ops["converter"] = (lambda: RadTbConverter("Suomi-NPP", "viirs", "M12"), implicit(RSR))
    ops["calculator"] = (lambda: Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0), implicit(RSR))
    ops["rsr-check"] = (lambda: rsr_reader.check_and_download(), rsr_check(None))
    ops["rsr-check-dest"] = (lambda: rsr_reader.check_and_download(dest_dir=elsewhere), rsr_check("elsewhere"))
    ops["rsr-check-dry"] = (lambda: rsr_reader.check_and_download(dry_run=True), nothing)
    ops["rsr-check-dest-dry"] = (lambda: rsr_reader.check_and_download(elsewhere, True), nothing)
    ops["rsr-download"] = (lambda: utils.download_rsr(), forced([RSR]))
    ops["rsr-download-dest"] = (lambda: utils.download_rsr(dest_dir=elsewhere), forced([RSR], "elsewhere"))
    ops["rsr-download-dry"] = (lambda: utils.download_rsr(dry_run=True), nothing)
    ops["rsr-download-dest-dry"] = (lambda: utils.download_rsr(elsewhere, dry_run=True), nothing)
    ops["rayleigh"] = (lambda: rayleigh.Rayleigh("Suomi-NPP", "viirs"), implicit(A))
    ops["rayleigh-B"] = (lambda: rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=B, atmosphere="tropical"), implicit(B))
    ops["rayleigh-C"] = (lambda: rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=C), implicit(C))
    ops["luts-check"] = (lambda: rayleigh.check_and_download(), checked(every))
    ops["luts-check-A"] = (lambda: rayleigh.check_and_download(aerosol_types=[A]), checked([A]))
    ops["luts-check-BA"] = (lambda: rayleigh.check_and_download(aerosol_types=(B, A)), checked([B, A]))
    ops["luts-check-AC"] = (lambda: rayleigh.check_and_download(False, {A: 1, C: 2}.keys()), checked([A, C]))
    ops["luts-check-dry"] = (lambda: rayleigh.check_and_download(dry_run=True), nothing)
    ops["luts-check-B-dry"] = (lambda: rayleigh.check_and_download(dry_run=True, aerosol_types=[B]), nothing)
    ops["luts-download"] = (lambda: utils.download_luts(), forced(every))
    ops["luts-download-B"] = (lambda: utils.download_luts(aerosol_types=[B]), forced([B]))
    ops["luts-download-AC"] = (lambda: utils.download_luts([A, C]), forced([A, C]))
    ops["luts-download-old"] = (lambda: utils.download_luts(aerosol_type=C), forced([C]))
    ops["luts-download-old-list"] = (lambda: utils.download_luts(aerosol_type=[C, B]), forced([C, B]))
    ops["luts-download-dry"] = (lambda: utils.download_luts(dry_run=True), nothing)
    ops["luts-download-A-dry"] = (lambda: utils.download_luts([A], True), nothing)
    ops["luts-download-old-dry"] = (lambda: utils.download_luts(aerosol_type=B, dry_run=True), nothing)
    ops["script-rsr"] = (script("download_rsr.py"), rsr_check(None))
    ops["script-rsr-dest"] = (script("download_rsr.py", "-o", elsewhere), rsr_check("elsewhere"))
    ops["script-rsr-dry"] = (script("download_rsr.py", "--dry_run"), nothing)
    ops["script-luts"] = (script("download_atm_correction_luts.py"), checked(every))
    ops["script-luts-AB"] = (script("download_atm_correction_luts.py", "-a", A, B), checked([A, B]))
    ops["script-luts-dry"] = (script("download_atm_correction_luts.py", "-d", "--aerosol_types", B), nothing)
    return ops


FAILS = {"open", "open-store-file", "converter", "calculator"}


class World:
    def __init__(self, content, state, download, stale, layout="apart"):
        self.root = w.fresh_dir("w4")
        self.content = content
        self.model = Model(content, state, stale)
        self.model.files["elsewhere"] = {"private": b"x"}
        self.model.files["own"] = {RSR_FILE: content.rsr}
        self.layout = layout
        for name, files in self.model.files.items():
            os.makedirs(self.path(name), exist_ok=True)
            for item, data in files.items():
                with open(os.path.join(self.path(name), item), "wb") as out:
                    out.write(data)
            if name not in (RSR, "elsewhere", "own") and list(files) == ["private"]:
                shutil.rmtree(self.path(name))
                files.clear()
        self.ops = operations(self.root)
        self.store = w.Store(root=os.path.join(self.root, "conf"))
        self.set_download(download)
        by_url = {url(n): n for n in [RSR] + GOLD["aerosol_types"]}

        def answer(address):
            name = by_url.get(address)
            return w.Served(content.tgz[name, stale]) if name else None

        w.serve(answer)

    def path(self, name):
        if name in ("elsewhere", "own"):
            return os.path.join(self.root, name)
        return os.path.join(self.root, "rsr") if name == RSR else os.path.join(self.root, "rayleigh", name)

    def set_download(self, download):
        self.model.download = bool(download)
        self.store.options = {"rsr_dir": os.path.join(self.root, "rsr"), "rayleigh_dir": os.path.join(self.root, "rayleigh"),
                              "tb2rad_dir": os.path.join(self.root, "conf")}
        if download is not None:
            self.store.options["download_from_internet"] = download
        if hasattr(self.store, "_cm"):
            self.store._cm.__exit__(None, None, None)
        self.store._cm = w.config(os.path.join(self.root, "conf", "pyspectral.yaml"), self.store.options)
        self.store._cm.__enter__()

    def age(self, name):
        """Somebody marks the store as old."""
        os.makedirs(self.path(name), exist_ok=True)
        with open(os.path.join(self.path(name), version_file(name)), "wb") as out:
            out.write(b"v0.0.2\n")
        self.model.files[name][version_file(name)] = b"v0.0.2\n"

    def step(self, op, text):
        call, expect = self.ops[op]
        NET.requests.clear()
        want = expect(self.model)
        error = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                call()
            except OSError as err:
                error = err
        got = list(NET.requests)
        check(sorted(got) == sorted(want), "%s: requested %s instead of %s", text, got, want)
        has = RSR_FILE in self.model.files[RSR]
        check((error is not None) == (op in FAILS and not has), "%s: error %r", text, error)
        for name, files in self.model.files.items():
            seen = w.tree(self.path(name)) if os.path.isdir(self.path(name)) else {}
            check(seen == files, "%s: files of %s are %s instead of %s", text, name,
                  {k: v[:20] for k, v in seen.items()}, {k: v[:20] for k, v in files.items()})
        extra = set(w.tree(os.path.join(self.root, "rayleigh"))) - {
            os.path.join(n, f) for n in GOLD["aerosol_types"] for f in self.model.files[n]}
        check(not extra, "%s: other files appeared: %s", text, sorted(extra)[:5])
        return len(want)

    def close(self):
        self.store._cm.__exit__(None, None, None)
        NET.reset(None)
        shutil.rmtree(self.root, ignore_errors=True)


def full(rsr, a, b, rest):
    state = {RSR: rsr, A: a, B: b}
    state.update({name: rest for name in REST})
    return state


def run(ctx):
    content = Content()
    names = list(operations("/nonexistent"))
    labels = list(versions(RSR))

    def quietly(func):
        return in_child(func)

    # ---- one operation from every state
    def single(ch):
        op = ch.choose("operation", names)
        rays = op.startswith(("rayleigh", "luts", "script-luts"))
        if rays:
            states = [full("old" if num % 2 else "current", a, b, rest)
                      for num, (a, b, rest) in enumerate((a, b, r) for a in labels for b in ("old", "current")
                                                         for r in ("missing", "current"))]
        else:
            states = [full(r, a, "old", "missing") for r in labels for a in ("current", "old")]
        state = ch.choose("state", states)
        download = ch.choose("download", [True, False, None])
        stale = ch.flag("published archive is old")

        def body():
            world = World(content, state, download, stale)
            try:
                num = world.step(op, "%s with %s, download %s" % (op, state_text(state), download))
                # the same again: only what is still needed
                return num, world.step(op, "%s again with %s, download %s" % (op, state_text(state), download))
            finally:
                world.close()

        nums = quietly(body)
        ch.state(op, download, stale, nums)
        ch.count(2)

    ctx.explore("single", single, workers=8, split=2)

    # ---- which of the tables are current
    every = GOLD["aerosol_types"]
    subsets = [bits for bits in itertools.product([0, 1], repeat=len(every))
               if ctx.thorough or sum(bits) <= 2 or sum(bits) >= len(every) - 2 or sum(a != b for a, b in zip(bits, bits[1:])) in (
                   1, len(every) - 1)]

    def some(ch):
        bits = ch.choose("current", subsets)
        op = ch.choose("operation", ["luts-check", "script-luts"] + (["luts-check-dry", "luts-download"] if ctx.thorough else []))
        state = full("current", "old", "old", "old")
        state.update({name: "current" if bit else "missing" if num % 2 else "old" for num, (name, bit) in enumerate(zip(every, bits))})

        def body():
            world = World(content, state, False, False)
            try:
                return world.step(op, "%s with current %s" % (op, [n for n, bit in zip(every, bits) if bit]))
            finally:
                world.close()

        ch.state(op, bits, quietly(body))

    ctx.explore("subsets", some, workers=8, split=1)

    # ---- histories
    alphabet = ["open", "open-file", "rayleigh", "rayleigh-B", "rsr-check", "rsr-check-dry", "rsr-download-dest", "luts-check-BA",
                "luts-check-dry", "luts-download-B", "calculator", "age-rsr", "age-A", "on", "off"]
    if ctx.thorough:
        alphabet += ["rsr-download", "luts-download-old-list", "rayleigh-C", "luts-check", "age-B", "converter"]

    def histories(ch):
        initial = ch.choose("state", [full("current", "current", "old", "current"), full("old", "missing", "current", "current")])
        plan = [ch.choose("op%d" % i, alphabet) for i in range(3)]
        if plan[-1] in ("on", "off", "age-rsr", "age-A", "age-B") or any(a == b and a in ("on", "off", "age-rsr", "age-A", "age-B")
                                                                       for a, b in zip(plan, plan[1:])):
            raise Prune()

        def body():
            world = World(content, initial, True, False)
            try:
                nums = []
                for num, op in enumerate(plan):
                    if op in ("on", "off"):
                        world.set_download(op == "on")
                    elif op.startswith("age-"):
                        world.age({"rsr": RSR, "A": A, "B": B}[op[4:]])
                    else:
                        nums.append(world.step(op, "step %d of %s from %s" % (num, plan, state_text(initial))))
                return nums
            finally:
                world.close()

        nums = quietly(body)
        ch.state(plan[-1], nums)
        ch.count(len(nums))

    ctx.explore("histories", histories, workers=8, split=2)
    ctx.assume("Addresses and names of version files: mc/golden.json; required versions: the constants of the code.")
    ctx.assume("Unpacking adds or replaces the files of the archive and leaves other files of the store alone.")


def state_text(state):
    return "responses %s, A %s, B %s, rest %s" % (state[RSR], state[A], state[B], state[C])


del np
