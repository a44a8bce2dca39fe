"""Processes whose file system steps are under control (see shim.c)."""
import ctypes
import os
import pickle
import select
import signal
import time
import traceback

KINDS = {"C": "create", "O": "open", "D": "list", "W": "write", "T": "truncate", "R": "rename", "N": "link", "U": "remove",
         "M": "mkdir", "S": "look", "F": "look at open file", "r": "read", "L": "lock", "B": "wait for lock"}
_LIB = []
# a process that takes longer than this does not finish (an undisturbed one takes less than a second)
_PATIENCE = [60.0]


def lib():
    if not _LIB:
        this = ctypes.CDLL(None)
        this.mc_count.restype = ctypes.c_long
        this.mc_size.restype = ctypes.c_long
        this.mc_size.argtypes = this.mc_kind.argtypes = [ctypes.c_long]
        this.mc_arm.argtypes = [ctypes.c_long, ctypes.c_long]
        this.mc_fence.argtypes = this.mc_watch.argtypes = [ctypes.c_char_p]
        _LIB.append(this)
    return _LIB[0]


def child(func, watch=None, arm=None, count=False):
    """Run *func* in a forked process: ("killed", None), ("ok", value) or ("error", text of the exception).

    arm: (step, torn); count: return (value, [(kind, size)...]) of the changing steps below *watch*.
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            if watch:
                lib().mc_watch(watch.encode())
                lib().mc_mode(1)
                lib().mc_arm(*(arm or (0, 0)))
            try:
                result = ("ok", func())
            except BaseException as err:
                result = ("error", "%s: %s\n%s" % (type(err).__name__, err,
                                                  "\n".join(traceback.format_exc().splitlines()[-8:])))
            if watch:
                steps = [(chr(lib().mc_kind(i)), lib().mc_size(i)) for i in range(lib().mc_count())] if count else None
                lib().mc_mode(0)
                if count:
                    result = (result[0], (result[1], steps))
            with os.fdopen(wfd, "wb") as out:
                pickle.dump(result, out)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    data, late = _collect(rfd)
    if late:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if late:
        text = "a process does not finish within %d s" % _PATIENCE[0]
        _PATIENCE[0] = 10.0
        return ("error", (text, []) if count else text)
    return pickle.loads(data) if data else ("killed", None)


def _collect(rfd):
    """All that comes out of the pipe, and whether it ended too late."""
    end = time.monotonic() + _PATIENCE[0]
    data = b""
    try:
        while True:
            ready, _, _ = select.select([rfd], [], [], max(end - time.monotonic(), 0))
            if not ready:
                return data, True
            part = os.read(rfd, 1 << 20)
            if not part:
                return data, False
            data += part
    finally:
        os.close(rfd)


def kill_points(steps):
    """(text, step, torn) of every kill point of a run with these changing steps."""
    out = []
    for num, (kind, size) in enumerate(steps, 1):
        out.append(("killed before step %d (%s)" % (num, KINDS[kind]), num, 0))
        if kind == "W":
            seen = {0, size}
            for torn, part in ((1, 1), (2, size // 2), (3, size - 1)):
                if part not in seen:
                    seen.add(part)
                    out.append(("killed in step %d (write) after %d of %d bytes" % (num, part, size), num, torn))
    if steps:
        out.append(("killed after step %d" % len(steps), len(steps), 4))
    return out


def full_points(steps):
    return [("disk full from step %d on" % num, num, 5) for num, (kind, _) in enumerate(steps, 1) if kind in "WM"]


def tree(root):
    """Everything below *root*: {relative path: content, or None for a directory}."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in dirs:
            out[os.path.relpath(os.path.join(base, name), root)] = None
        for name in files:
            with open(os.path.join(base, name), "rb") as inp:
                out[os.path.relpath(os.path.join(base, name), root)] = inp.read()
    return out


def plant(root, files):
    """The reverse of tree."""
    os.makedirs(root, exist_ok=True)
    for name in sorted(files):
        path = os.path.join(root, name)
        if files[name] is None:
            os.makedirs(path, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as out:
                out.write(files[name])
