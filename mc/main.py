"""Run one check: scratch world, worker process, exit code.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself could not run.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = {"quick": 780, "thorough": 6 * 3600}


def clean_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "PSP_", "XDG_", "DASK_", "LD_", "OMP_", "HDF5_"))}
    for name in ("home", "xdg", "tmp", "mpl", "work"):
        os.makedirs(os.path.join(scratch, name))
    env.update(HOME=scratch + "/home", XDG_DATA_HOME=scratch + "/xdg", TMPDIR=scratch + "/tmp",
               MPLCONFIGDIR=scratch + "/mpl", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE", LC_ALL="C.UTF-8", TZ="UTC", TQDM_DISABLE="1",
               MC_SCRATCH=scratch, MC_REPO=os.environ.get("MC_REPO", "/repo"))
    for name in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
        env.pop(name, None)
    return env


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    args = parser.parse_args()
    if not re.match(r"^[A-Z][0-9]{2,3}$", args.property):
        parser.error("bad property id")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = os.path.abspath(args.replay) if args.replay else ""

    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else "/tmp"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.property, dir=base)
    t0 = time.time()
    proc = None
    try:
        env = clean_env(scratch)
        cmd = [sys.executable, "-B", os.path.join(VERIF, "mc", "worker.py"), args.property, args.tier, str(seed), replay]
        shim = os.path.join(VERIF, "build", "shim.so")
        if args.property in ("C01", "C03"):
            source = os.path.join(VERIF, "mc", "shim.c")
            if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(source):
                subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
            env["LD_PRELOAD"] = shim
        proc = subprocess.Popen(cmd, env=env, cwd=scratch + "/work", start_new_session=True)
        try:
            rc = proc.wait(timeout=HANG_S[args.tier])
        except subprocess.TimeoutExpired:
            rc = "hang"
        died = rc == "hang" or rc < 0 or rc not in (0, 1, 2)
        if died:
            # The code under test hung or killed the interpreter.
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-died.json" % args.property)
            with open(path, "w") as out:
                json.dump({"property": args.property, "message": "worker ended with %s" % rc}, out)
            evid = os.path.join(VERIF, "evidence", "%s.json" % args.property)
            os.makedirs(os.path.dirname(evid), exist_ok=True)
            with open(evid, "w") as out:
                json.dump({"property": args.property, "tier": args.tier, "seed": seed, "level": "model_checking",
                           "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                        "samples": ["the run ended with %s" % rc]},
                           "wall_s": round(time.time() - t0, 2), "violations": 1}, out)
            print("worker ended with %s" % rc)
            print("VIOLATION property=%s replay=%s" % (args.property, path))
            rc = 1
        return rc
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
