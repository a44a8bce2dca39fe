"""Exhaustive exploration of choice trees and reporting.

A *body* is a function of a Chooser.  Every call of ``choose`` is a nondeterministic step of the modelled
environment (an input value, an operation, a schedule decision, a fault); ``explore`` executes the body once for
every sequence of answers (depth first, stateless), so that within the bounds written in the body nothing is left
out.  The vector of answers is the replay artefact.
"""
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORTED = 5


class Violation(Exception):
    """The property does not hold on this execution."""


class Prune(Exception):
    """This combination of choices is not part of the alphabet."""


class StopCheck(Exception):
    """Enough violations were found."""


class _Frontier(Exception):
    pass


class Chooser:
    """Answers the choices of one execution: a given prefix, then always the first alternative."""

    def __init__(self, prefix=(), limit=None):
        self.prefix = list(prefix)
        self.taken = []
        self.sizes = []
        self.labels = []
        self.states = []
        self.evals = 0
        self.limit = limit

    def choose(self, label, options):
        options = list(options)
        if not options:
            raise Prune()
        pos = len(self.taken)
        idx = self.prefix[pos] if pos < len(self.prefix) else 0
        if idx >= len(options):
            raise Prune()
        self.taken.append(idx)
        self.sizes.append(len(options))
        self.labels.append((label, _short(options[idx])))
        if self.limit is not None and len(self.taken) >= self.limit:
            raise _Frontier()
        return options[idx]

    def fresh(self):
        """False while the execution repeats a prefix that an earlier execution has already judged."""
        return len(self.taken) >= len(self.prefix)

    def flag(self, label):
        return self.choose(label, [False, True])

    def state(self, *what):
        """Record a model/observed state."""
        self.states.append(digest(what))

    def count(self, number):
        """Count single evaluations (e.g. pixels) compared against the model."""
        self.evals += int(number)


def _short(obj, size=90):
    text = obj if isinstance(obj, str) else getattr(obj, "name", None) or getattr(obj, "__name__", None) or repr(obj)
    text = str(text)
    return text if len(text) <= size else text[:size - 3] + "..."


def digest(obj):
    return hashlib.sha1(repr(obj).encode("utf-8", "replace")).hexdigest()[:16]


class Ctx:
    """Counters, violations and evidence of one run."""

    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.exhaustive = True
        self.scratch = os.environ["MC_SCRATCH"]
        self.replay = None
        if replay:
            with open(replay) as inp:
                self.replay = json.load(inp)
        self.known = _load_known(prop)
        self.level = "model_checking"

    # -- bounds ----------------------------------------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def assume(self, text):
        self.assumptions.append(text)

    def note_incomplete(self):
        self.exhaustive = False

    # -- violations ------------------------------------------------------------------------------------------
    def fail(self, part, choices, labels, message):
        signature = "%s|%s|%s" % (part, "/".join("%s=%s" % lab for lab in labels), message)
        for known in self.known:
            if known["match"] in signature:
                if known not in self.known_hit:
                    self.known_hit.append(known)
                return
        record = {"property": self.prop, "part": part, "choices": list(choices),
                  "trace": ["%s=%s" % lab for lab in labels], "message": message[:4000]}
        self.violations.append(record)
        sys.stdout.write("-- %s/%s: %s\n   trace: %s\n" % (self.prop, part, message[:1500],
                                                          " ".join(record["trace"])[:1500]))
        sys.stdout.flush()
        if len(self.violations) >= MAX_REPORTED:
            raise StopCheck()

    def fail_plain(self, part, message):
        try:
            self.fail(part, [], [], message)
        except StopCheck:
            pass

    # -- exploration -----------------------------------------------------------------------------------------
    def explore(self, part, body, workers=1, split=1, budget_s=None):
        """Run *body* on every sequence of choices."""
        if self.replay is not None:
            if self.replay.get("part") == part:
                self._merge(part, [_execute(body, self.replay["choices"])])
            return
        before = (len(self.states), self.transitions, self.traces, self.evals)
        t0 = time.time()
        complete = True
        if workers > 1:
            prefixes = _frontier(body, split)
            complete = self._parallel(part, body, prefixes, workers, budget_s)
        else:
            prefix = []
            while prefix is not None:
                res = _execute(body, prefix)
                self._merge(part, [res])
                prefix = _next_prefix(res)
                if budget_s and time.time() - t0 > budget_s and prefix is not None:
                    complete = False
                    break
        if not complete:
            self.exhaustive = False
        self.parts[part] = {"states": len(self.states) - before[0], "transitions": self.transitions - before[1],
                            "executions": self.traces - before[2], "evaluations": self.evals - before[3],
                            "complete": complete, "wall_s": round(time.time() - t0, 2)}

    def _merge(self, part, results):
        for res in results:
            if res["new_edges"] is not None:
                self.transitions += res["new_edges"]
            if res["pruned"]:
                continue
            self.traces += 1
            self.evals += res["evals"]
            self.states.update(res["states"])
            if len([s for s in self.samples if s["part"] == part]) < 3:
                self.samples.append({"part": part, "trace": ["%s=%s" % lab for lab in res["labels"]]})
            if res["violation"]:
                self.fail(part, res["taken"], res["labels"], res["violation"])

    def _parallel(self, part, body, prefixes, workers, budget_s):
        import multiprocessing
        global _JOB
        _JOB = (body, time.time() + budget_s if budget_s else None)
        complete = True
        mp = multiprocessing.get_context("fork")
        with mp.Pool(min(workers, max(1, len(prefixes)))) as pool:
            try:
                for results, done in pool.imap_unordered(_subtree, prefixes):
                    complete = complete and done
                    self._merge(part, results)
            finally:
                pool.terminate()
        return complete

    # -- result ----------------------------------------------------------------------------------------------
    def finish(self):
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"states": len(self.states), "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "evaluations": self.evals,
                         "samples": self.samples[:12], "parts": self.parts, "exhaustive": bool(self.exhaustive)},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations)}
        if not evidence["coverage"]["samples"]:
            evidence["coverage"]["samples"] = ["none"]
        if self.replay is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", self.prop + ".json")
            with open(path + ".tmp", "w") as out:
                json.dump(evidence, out, indent=1)
            os.replace(path + ".tmp", path)
        print("%s tier=%s states=%d transitions=%d executions=%d evaluations=%d exhaustive=%s wall=%.1fs" % (
            self.prop, self.tier, len(self.states), self.transitions, self.traces, self.evals, self.exhaustive,
            time.time() - self.t0))
        for known in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known["text"]))
        if not self.violations:
            if self.traces == 0:
                print("nothing was explored")
                return 2
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for num, record in enumerate(self.violations):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, num))
            with open(path, "w") as out:
                json.dump(record, out, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


_JOB = None


def _subtree(prefix):
    body, deadline = _JOB
    results = []
    cur = list(prefix)
    first = True
    while cur is not None:
        res = _execute(body, cur)
        if first:
            res["new_edges"] = len(res["taken"]) - len(prefix) + 1
            first = False
        results.append({k: v for k, v in res.items() if k != "sizes"} if len(results) > 3 else dict(res))
        if res["violation"] and sum(1 for r in results if r["violation"]) >= MAX_REPORTED:
            return results, True
        cur = _next_prefix(res, floor=len(prefix))
        if deadline and time.time() > deadline and cur is not None:
            return results, False
    return results, True


def _frontier(body, split):
    out = []
    prefix = []
    while prefix is not None:
        chooser = Chooser(prefix, limit=split)
        try:
            body(chooser)
        except _Frontier:
            pass
        except BaseException:
            pass
        res = {"taken": chooser.taken, "sizes": chooser.sizes}
        out.append(list(chooser.taken))
        prefix = _next_prefix(res)
    uniq = []
    for item in out:
        if item not in uniq:
            uniq.append(item)
    return uniq


def _execute(body, prefix):
    chooser = Chooser(prefix)
    violation, pruned = None, False
    try:
        body(chooser)
    except Prune:
        pruned = True
    except Violation as err:
        violation = str(err)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as err:
        import errno
        if isinstance(err, OSError) and err.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE):
            raise
        violation = "unexpected %s: %s\n%s" % (type(err).__name__, err, _trace_tail())
    states = list(chooser.states) or ([digest(tuple(chooser.labels))] if not pruned else [])
    # The edges that were not shared with the previous execution in depth-first order.
    fresh = len(chooser.taken) - (max(len(prefix) - 1, 0))
    return {"taken": list(chooser.taken), "sizes": list(chooser.sizes), "labels": list(chooser.labels),
            "states": states, "violation": violation, "pruned": pruned, "evals": max(chooser.evals, 0 if pruned else 1),
            "new_edges": fresh}


def _trace_tail():
    lines = traceback.format_exc().strip().splitlines()
    return "\n".join(lines[-14:])


def _next_prefix(res, floor=0):
    taken, sizes = list(res["taken"]), list(res["sizes"])
    while len(taken) > floor:
        if taken[-1] + 1 < sizes[len(taken) - 1]:
            taken[-1] += 1
            return taken
        taken.pop()
    return None


def _load_known(prop):
    """Lines 'finding: property=<id> match=<text> :: <what fails>' of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as inp:
            for line in inp:
                line = line.strip()
                if not line.startswith("finding: property=%s " % prop):
                    continue
                match, text = line.split("match=", 1)[1].split(" :: ", 1)
                out.append({"match": match, "text": text})
    return out


def check(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)
