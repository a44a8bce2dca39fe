"""C20: configuration precedence, and testing context managers nested in every way."""
import os
import shutil
from pathlib import Path

import numpy as np
import yaml

from mc import rayl
from mc import world as w
from mc.core import check
from mc.env import NET, REPO

PLATFORM, INST, BANDNAME = "Suomi-NPP", "viirs", "M5"
PTS = np.array([[20.0, 30.0, 60.0], [50.0, 10.0, 120.0]])


class Boom(Exception):
    """Raised by the body of a context."""


class Halt(BaseException):
    """Not an ordinary exception."""


def fill(path, center, ray, rsr_current, ray_current):
    """A data directory: responses with *center*, tables with the constant *ray*."""
    from pyspectral import utils
    os.makedirs(path, exist_ok=True)
    w.write_rsr(os.path.join(path, "rsr_%s_%s.h5" % (INST, PLATFORM)), {BANDNAME: {"det-1": w.tri_band(center, 0.02, 9)}},
                PLATFORM, INST, dtype="f8")
    with open(os.path.join(path, utils.RSR_DATA_VERSION_FILENAME), "w") as out:
        out.write(utils.RSR_DATA_VERSION if rsr_current else "v0.0.1")
    shape = (len(rayl.WVL), len(rayl.SUN), len(rayl.AZI), len(rayl.SAT))
    rayl.write(os.path.join(path, "marine_clean_aerosol", "rayleigh_lut_us-standard.h5"), np.full(shape, ray))
    version = utils.ATM_CORRECTION_LUT_VERSION["marine_clean_aerosol"]
    with open(os.path.join(path, "marine_clean_aerosol", version["filename"]), "w") as out:
        out.write(version["version"] if ray_current else "v0.0.1")


class Frame:
    """What is in force at one level."""

    def __init__(self, config, rsr=None, forbid=False, env=None):
        self.config, self.rsr, self.forbid, self.env = config, rsr, forbid, env


def small_lut(value):
    shape = (len(rayl.WVL), len(rayl.SUN), len(rayl.AZI), len(rayl.SAT))
    return {"azimuth_difference": rayl.AZI, "reflectance": np.full(shape, value), "wavelengths": rayl.WVL,
            "satellite_zenith_secant": rayl.SAT, "sun_zenith_secant": rayl.SUN}


def run(ctx):
    from pyspectral import testing, utils
    from pyspectral.config import get_config
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.rsr_reader import RelativeSpectralResponse

    user = os.path.join(os.environ["XDG_DATA_HOME"], "pyspectral")
    builtin = os.path.join(REPO, "pyspectral", "etc", "pyspectral.yaml")
    with open(builtin) as inp:
        builtin_content = yaml.safe_load(inp)
    fill(user, 0.75, 0.30, True, True)

    # directory -> (centre, percent, responses current, tables current)
    def known(root):
        return {user: (0.75, 30.0, True, True), root + "/base": (0.65, 20.0, True, False), root + "/a": (0.55, 40.0, False, False)}

    def defaults(conf):
        out = dict(conf)
        out["rsr_dir"] = os.path.expanduser(out.get("rsr_dir", user))
        out["rayleigh_dir"] = os.path.expanduser(out.get("rayleigh_dir", user))
        return out

    def probe(frame, dirs, text):
        """Compare everything observable with the innermost frame."""
        env = os.environ.get("PSP_CONFIG_FILE")
        if frame.env is not None:
            check(env == frame.env, "%s: environment %r instead of %r", text, env, frame.env)
        conf = get_config()
        want = defaults(frame.config) if frame.config is not None else None
        if want is not None:
            check(conf == want, "%s: configuration %s instead of %s", text, conf, want)
        download = conf.get("download_from_internet")
        # spectral responses
        state = dirs.get(conf["rsr_dir"])
        NET.reset(None)
        needs = bool(download) and state is not None and not state[2]
        try:
            got = RelativeSpectralResponse(PLATFORM, INST).rsr[BANDNAME]["det-1"]["central_wavelength"]
        except (RuntimeError, OSError):
            got = "failed"
        centre = frame.rsr if frame.rsr is not None else state[0] if state else None
        if needs:
            centre = "failed"
        same = got == centre if isinstance(centre, str) or isinstance(got, str) else abs(got - centre) < 1e-4
        check(same, "%s: responses of %r instead of %r", text, got, centre)
        check(len(NET.requests) == int(needs and not frame.forbid), "%s: requests %s", text, NET.requests)
        # tables
        state = dirs.get(conf["rayleigh_dir"])
        needs = bool(download) and state is not None and not state[3]
        NET.reset(None)
        try:
            got = Rayleigh(PLATFORM, INST).get_reflectance(*PTS.T.copy(), 0.5)
        except (RuntimeError, OSError):
            got = "failed"
        value = "failed" if needs else state[1]
        same = got is value or got == value if isinstance(value, str) or isinstance(got, str) else \
            bool(np.all(np.abs(got - value) < 1e-6))
        check(same, "%s: atmospheric correction %r instead of %r", text, got, value)
        check(len(NET.requests) == int(needs and not frame.forbid), "%s: requests %s", text, NET.requests)
        # an explicit download
        NET.reset(None)
        try:
            utils.download_rsr(dest_dir=os.path.join(os.environ["TMPDIR"], "nowhere-%d" % os.getpid()))
            got = "nothing"
        except (RuntimeError, OSError):
            got = "failed"
        check(got == "failed", "%s: a download gave %r", text, got)
        check(len(NET.requests) == int(not frame.forbid), "%s: requests %s", text, NET.requests)

    def enter(name, top, root, dirs, num):
        """(context manager, function that gives the new frame once entered)."""
        path = Path(root) / ("m%d" % num)
        if name == "override-options":
            conf = {"rsr_dir": root + "/a", "rayleigh_dir": root + "/a", "download_from_internet": False, "extra": {"k": num}}
            return testing.override_config(config_options=conf), lambda v: Frame(conf, top.rsr, top.forbid, str(v))
        if name == "override-file":
            target = path.with_suffix(".yaml")
            conf = {"download_from_internet": True, "number": num}
            target.write_text(yaml.safe_dump(conf))
            return testing.override_config(config_path=target), lambda v: Frame(conf, top.rsr, top.forbid, str(target))
        if name == "override-outdated":
            conf = {"rsr_dir": root + "/a", "rayleigh_dir": root + "/base", "download_from_internet": True}
            return testing.override_config(conf), lambda v: Frame(conf, top.rsr, top.forbid, str(v))
        if name == "override-none":
            return testing.override_config(), lambda v: Frame({}, top.rsr, top.forbid, str(v))
        if name == "forbid":
            return testing.forbid_pyspectral_downloads(), lambda v: Frame(top.config, top.rsr, True, top.env)
        if name == "rsr":
            dirs[str(path)] = (None, None, True, True)
            conf = {"rsr_dir": str(path), "download_from_internet": False}
            return testing.mock_rsr(rsr_dir=path, central_wavelengths={BANDNAME: 0.5 + num / 100}), \
                lambda v: Frame(conf, 0.5 + num / 100, top.forbid)
        if name == "rsr-temporary":
            return testing.mock_rsr(), lambda v: Frame(None, 0.46, top.forbid)
        if name == "rsr-files":
            return testing.mock_rsr_files(path, central_wavelengths={BANDNAME: 0.6 + num / 100}), \
                lambda v: Frame(top.config, 0.6 + num / 100, top.forbid, top.env)
        if name == "tb":
            conf = {"rsr_dir": str(path), "tb2rad_dir": str(path), "download_from_internet": False}
            return testing.mock_tb_conversion(tb2rad_dir=path, central_wavelengths={BANDNAME: 0.8}), \
                lambda v: Frame(conf, 0.8, top.forbid)
        if name == "tb-temporary":
            return testing.mock_tb_conversion(central_wavelengths={"I04": 3.74}), lambda v: Frame(None, 0.46, top.forbid)
        if name == "rayleigh":
            dirs[str(path)] = (None, 10.0 + num, True, True)
            conf = {"rsr_dir": str(path), "rayleigh_dir": str(path), "download_from_internet": False}
            return testing.mock_rayleigh(rayleigh_dir=path, lut_data=small_lut(0.10 + num / 100)), \
                lambda v: Frame(conf, 0.46, top.forbid)
        if name == "rayleigh-old":
            dirs[str(path)] = (None, 60.0, True, False)
            conf = {"rsr_dir": str(path), "rayleigh_dir": str(path), "download_from_internet": False}
            return testing.mock_rayleigh(rayleigh_dir=path, lut_data=small_lut(0.60), existing_version="v0.0.0",
                                         aerosol_types=["marine_clean_aerosol"], atmospheres=["us-standard"]), \
                lambda v: Frame(conf, 0.46, top.forbid)
        if name == "rayleigh-fails":
            return testing.mock_rayleigh(rayleigh_dir=path, lut_data=small_lut(0.60), aerosol_types=["nope"]), None
        if name == "downloads-fails":
            return testing.mock_pyspectral_downloads(tmp_path=path, rsr_files_kwargs={"nope": 1}), None
        if name == "override-fails":
            return testing.override_config(config_options={"x": lambda: 1, "y": (i for i in ())}), None
        if name == "downloads":
            for sub in ("fake_rsr", "fake_rayleigh"):
                dirs[str(path / sub)] = (None, None, True, True)
            dirs[str(path / "fake_rayleigh")] = (None, "fake", True, True)
            conf = {"rsr_dir": str(path / "fake_rsr"), "rayleigh_dir": str(path / "fake_rayleigh"),
                    "tb2rad_dir": str(path / "fake_tb2rad"), "download_from_internet": bool(num % 2), "more": 7}
            extra = {"download_from_internet": bool(num % 2), "more": 7}
            return testing.mock_pyspectral_downloads(tmp_path=path, extra_config_options=extra,
                                                     rsr_files_kwargs={"central_wavelengths": {BANDNAME: 0.42}}), \
                lambda v: Frame(conf, 0.42, top.forbid)
        raise AssertionError(name)

    light = ["override-options", "override-file", "override-outdated", "forbid", "rsr", "rsr-files", "tb"]
    special = ["override-none", "rsr-temporary", "tb-temporary", "rayleigh", "rayleigh-old", "rayleigh-fails", "downloads-fails",
               "downloads"]

    def nesting(ch, alphabet, enters, envs=("file", "none")):
        root = w.fresh_dir("cfg")
        dirs = known(root)
        fill(root + "/base", 0.65, 0.20, True, False)
        fill(root + "/a", 0.55, 0.40, False, False)
        base_env = ch.choose("environment", envs)
        old = os.environ.pop("PSP_CONFIG_FILE", None)
        active = []
        try:
            if base_env == "file":
                conf = {"rsr_dir": root + "/base", "rayleigh_dir": root + "/base", "download_from_internet": True}
                target = root + "/base.yaml"
                with open(target, "w") as out:
                    yaml.safe_dump(conf, out)
                os.environ["PSP_CONFIG_FILE"] = target
                stack = [Frame(conf, None, False, target)]
            else:
                stack = [Frame(builtin_content, None, False, None)]
            environ = dict(os.environ)
            if len(ch.prefix) <= 1:
                probe(stack[-1], dirs, "before")
            done = 0
            for step in range(2 * enters):
                options = []
                if done < enters:
                    options += alphabet
                if active:
                    options += ["leave", "error"] if len(active) > 1 or done >= enters else ["leave", "error", "halt"]
                if not options:
                    break
                what = ch.choose("step%d" % step, options)
                text = "step %d (%s)" % (step, what)
                if what in ("leave", "error", "halt"):
                    cm, _ = active.pop()
                    stack.pop()
                    if what == "leave":
                        cm.__exit__(None, None, None)
                    else:
                        err = Boom("x") if what == "error" else Halt("x")
                        caught = None
                        try:
                            swallowed = cm.__exit__(type(err), err, err.__traceback__)
                        except (Boom, Halt) as exc:
                            caught, swallowed = exc, False
                        check(not swallowed and caught in (None, err), "%s: the error of the body was lost", text)
                else:
                    done += 1
                    cm, frame = enter(what, stack[-1], root, dirs, step)
                    try:
                        value = cm.__enter__()
                    except Exception:
                        check(frame is None, "%s: cannot be entered", text)
                    else:
                        check(frame is not None, "%s: entered", text)
                        active.append((cm, what))
                        stack.append(frame(value))
                        if what in ("rsr-temporary", "tb-temporary"):
                            dirs[get_config()["rsr_dir"]] = (None, None, True, True)
                if what == "downloads":
                    dirs[get_config()["rayleigh_dir"]] = (None, fake_value, True, True)
                if ch.fresh():
                    probe(stack[-1], dirs, text)
                if active and active[-1][1] == "tb-temporary" and what == "tb-temporary":
                    folder = get_config()["tb2rad_dir"]
                    Calculator(PLATFORM, INST, "I04", solar_flux=2.0)
                    check(any(name.endswith(".npz") for name in os.listdir(folder)), "%s: table not in the mocked place", text)
                ch.state([a[1] for a in active], base_env)
            check(not active or done, "nothing")
            left = bool(active)
            while active:
                active.pop()[0].__exit__(None, None, None)
            if left:
                probe(stack[0], dirs, "after everything")
            check(dict(os.environ) == environ, "environment changed: %s", set(os.environ.items()) ^ set(environ.items()))
        finally:
            while active:
                try:
                    active.pop()[0].__exit__(None, None, None)
                except Exception:
                    pass
            os.environ.pop("PSP_CONFIG_FILE", None)
            if old is not None:
                os.environ["PSP_CONFIG_FILE"] = old
            shutil.rmtree(root, ignore_errors=True)

    fake_value = None
    with testing.mock_pyspectral_downloads():
        # the default mock has one value per wavelength: documented as a constant correction
        lut = np.linspace(0.668, 0.115, 81)
        fake_value = float(np.interp(500.0, np.linspace(400, 800, 81), lut)) * 100

    ctx.explore("nesting", lambda ch: nesting(ch, light, ctx.pick(2, 3)), workers=8, split=3)
    ctx.explore("deep", lambda ch: nesting(ch, ["override-options", "forbid", "rsr-files"] if not ctx.thorough else
                                           ["override-options", "override-outdated", "forbid", "rsr-files"], 3, ["file"]),
                workers=8, split=3)
    ctx.explore("special", lambda ch: nesting(ch, special + (["override-options", "forbid"] if not ctx.thorough else light),
                                              ctx.pick(2, 2)), workers=8, split=3)

    # ---- as decorators and generators left halfway
    def halfway(ch):
        name = ch.choose("manager", ["override", "rsr", "forbid", "downloads", "tb", "rayleigh"])
        how = ch.choose("how", ["return", "break", "generator-close", "with-error", "system-exit"])
        make = {"override": lambda: testing.override_config({"a": 1}), "rsr": testing.mock_rsr,
                "forbid": testing.forbid_pyspectral_downloads, "downloads": testing.mock_pyspectral_downloads,
                "tb": testing.mock_tb_conversion, "rayleigh": testing.mock_rayleigh}[name]
        before = dict(os.environ)

        def returning():
            with make():
                return 5

        def generating():
            with make():
                yield 1
                yield 2

        if how == "return":
            returning()
        elif how == "break":
            for _ in range(2):
                with make():
                    break
        elif how == "generator-close":
            gen = generating()
            next(gen)
            gen.close()
        else:
            kind = Boom if how == "with-error" else SystemExit
            try:
                with make():
                    raise kind("x")
            except kind:
                pass
            else:
                check(False, "error lost")
        check(dict(os.environ) == before, "environment changed")
        probe(Frame(builtin_content), {user: (0.75, 30.0, True, True)}, "after")

    ctx.explore("halfway", halfway)

    # ---- configuration files
    def files(ch):
        root = w.fresh_dir("cfg")
        old = os.environ.pop("PSP_CONFIG_FILE", None)
        try:
            contents = {"one": {"download_from_internet": True, "rsr_dir": root + "/r1", "nested": {"a": {"b": 1}, "c": [1, 2]}},
                        "two": {"rayleigh_dir": root + "/deep/er/y2", "tb2rad_dir": root + "/t2"},
                        "three": {"rsr_dir": "~/psp-home-%d" % os.getpid(), "rayleigh_dir": "~/psp-home-%d/x" % os.getpid(),
                                  "download_from_internet": False, "Meteosat-9-seviri": {"rsr_path": root}}}
            now = {}

            def put(name, what):
                now[name] = what
                # same size and time stamp whatever the content
                text = yaml.safe_dump(contents[what])
                with open(os.path.join(root, name + ".yaml"), "w") as out:
                    out.write(text + "# " + "x" * (600 - len(text)) + "\n")
                os.utime(os.path.join(root, name + ".yaml"), (1700000000, 1700000000))

            put("f1", "one")
            put("f2", "two")
            env = None
            for step in range(ctx.pick(3, 4)):
                op = ch.choose("op%d" % step, ["env-f1", "env-f2", "env-none", "env-missing", "env-dir", "env-empty", "rewrite-f1", "rewrite-f2",
                                               "explicit-f1", "explicit-f2-path", "explicit-missing", "spoil"])
                explicit, result = None, None
                if op.startswith("env-"):
                    env = {"f1": root + "/f1.yaml", "f2": root + "/f2.yaml", "none": None, "missing": root + "/no.yaml",
                           "dir": root, "empty": ""}[op[4:]]
                    os.environ.pop("PSP_CONFIG_FILE", None)
                    if env is not None:
                        os.environ["PSP_CONFIG_FILE"] = env
                elif op == "rewrite-f1":
                    put("f1", "three" if now["f1"] == "one" else "one")
                elif op == "rewrite-f2":
                    put("f2", "one" if now["f2"] == "two" else "two")
                elif op == "explicit-f1":
                    explicit = root + "/f1.yaml"
                elif op == "explicit-f2-path":
                    explicit = Path(root) / "f2.yaml"
                elif op == "explicit-missing":
                    explicit = root + "/absent.yaml"
                elif op == "spoil":
                    try:
                        got = get_config()
                    except OSError:
                        continue
                    for key in list(got):
                        if isinstance(got[key], dict):
                            got[key].clear()
                        got[key] = "spoilt"
                    got["rsr_dir"] = "/nonexistent/spoilt"
                source = str(explicit) if explicit is not None else env
                try:
                    result = get_config(explicit) if explicit is not None else get_config()
                except OSError:
                    result = "error"
                if source is None:
                    want = defaults(builtin_content)
                elif source.endswith(("f1.yaml", "f2.yaml")):
                    want = defaults(contents[now[os.path.basename(source)[:2]]])
                else:
                    want = "error"
                check(result == want, "%s: %s instead of %s", op, result, want)
                if want != "error":
                    check(os.path.isdir(want["rsr_dir"]) and os.path.isdir(want["rayleigh_dir"]), "%s: no directory", op)
                    for key in ("rsr_dir", "rayleigh_dir"):
                        if want[key] != user:
                            shutil.rmtree(want[key], ignore_errors=True)
                ch.state(env and os.path.basename(env), dict(now), op)
        finally:
            os.environ.pop("PSP_CONFIG_FILE", None)
            if old is not None:
                os.environ["PSP_CONFIG_FILE"] = old
            shutil.rmtree(root, ignore_errors=True)

    ctx.explore("files", files, workers=8, split=2)

    # ---- directories that are not there yet
    def directories(ch):
        root = w.fresh_dir("dirs")
        home = os.environ["XDG_DATA_HOME"]
        old = os.environ.pop("PSP_CONFIG_FILE", None)
        try:
            os.environ["XDG_DATA_HOME"] = os.path.join(root, "some", "home")
            mine = os.path.join(root, "some", "home", "pyspectral")
            if ch.flag("user directory exists"):
                os.makedirs(mine)
            conf = {}
            for key in ("rsr_dir", "rayleigh_dir"):
                where = ch.choose(key, ["default", "absent", "there"])
                if where != "default":
                    conf[key] = os.path.join(root, "d", key)
                if where == "there":
                    os.makedirs(conf[key])
            download = ch.choose("download", [None, True, False])
            if download is not None:
                conf["download_from_internet"] = download
            conf["more"] = 1
            path = os.path.join(root, "c.yaml")
            with open(path, "w") as out:
                yaml.safe_dump(conf, out)
            if ch.flag("by environment"):
                os.environ["PSP_CONFIG_FILE"] = path
                got = get_config()
            else:
                got = get_config(path)
            for key in ("rsr_dir", "rayleigh_dir"):
                conf.setdefault(key, mine)
                check(os.path.isdir(conf[key]), "%s %s does not exist", key, conf[key])
            check(got == conf, "%s instead of %s", got, conf)
        finally:
            os.environ["XDG_DATA_HOME"] = home
            os.environ.pop("PSP_CONFIG_FILE", None)
            if old is not None:
                os.environ["PSP_CONFIG_FILE"] = old
            shutil.rmtree(root, ignore_errors=True)

    ctx.explore("directories", directories)
    ctx.assume("The variable PSP_CONFIG_FILE is not changed by the body of a context.")
