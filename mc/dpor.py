"""Interleavings of the file system steps of several processes, with dynamic partial order reduction.

Every process announces its next step and waits (shim.c, mode 2), so that exactly one step happens at a time.  Two
executions that differ only in the order of independent steps are equivalent and explored once (Flanagan and Godefroid
2005, with sleep sets).  Steps depend on each other if they touch the same name or the same open file and one changes
it.  A schedule, as a list of process numbers, is the replay artefact.
"""
import ctypes
import os
import pickle
import select
import signal
import traceback

from mc import fs
from mc.core import Violation

STEP_LIMIT = 3000
LONE_LIMIT = 600


class Step:
    """A pending or executed step: what it reads and what it changes."""

    __slots__ = ("kind", "text", "reads", "writes", "size", "lists", "fills")

    def __init__(self, line):
        kind, one, two, ino, size, changing = line.split("\t")
        self.kind, self.size = kind, int(size)
        names = [n for n in (one, two) if n]
        keys = ["n" + n for n in names]
        if int(ino):
            keys.append("i" + ino)
        self.text = "%s %s" % (fs.KINDS.get(kind, kind), " ".join(os.path.basename(n) for n in names))
        # listing a directory depends on the names that come and go there
        self.lists = set(names) if kind == "D" else set()
        self.fills = set()
        if int(changing):
            self.reads, self.writes = set(), set(keys)
            if kind in "CRNUM":
                self.fills = {os.path.dirname(n) for n in names}
        else:
            self.reads, self.writes = set(keys), set()

    def conflicts(self, other):
        return bool(self.writes & (other.reads | other.writes) or other.writes & self.reads
                    or self.lists & other.fills or other.lists & self.fills)


class Proc:
    def __init__(self, func, watch):
        req_r, req_w = os.pipe()
        grant_r, grant_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(req_r)
                os.close(grant_w)
                lib = fs.lib()
                lib.mc_watch(watch.encode())
                lib.mc_pipes(ctypes.c_int(req_w), ctypes.c_int(grant_r))
                lib.mc_mode(2)
                try:
                    result = ("ok", func())
                except BaseException as err:
                    result = ("error", "%s: %s\n%s" % (type(err).__name__, err,
                                                      "\n".join(traceback.format_exc().splitlines()[-8:])))
                lib.mc_mode(0)
                data = b"X" + pickle.dumps(result).hex().encode() + b"\n"
                while data:
                    data = data[os.write(req_w, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(req_w)
        os.close(grant_r)
        self.inp, self.out = req_r, grant_w
        self.buf = b""
        self.result = None
        self.pending = None
        self.steps = 0
        self.changes = 0
        self.stalled = False

    def advance(self):
        """Wait for the next announcement."""
        self.pending = None
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.inp], [], [], 60)
            if not ready:
                raise Violation("a process does not get on after %d steps" % self.steps)
            data = os.read(self.inp, 65536)
            if not data:
                self.result = ("killed", None)
                return
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        if line.startswith(b"X"):
            self.result = pickle.loads(bytes.fromhex(line[1:].decode()))
            return
        self.pending = Step(line.decode())

    def grant(self, how=b"g"):
        self.steps += 1
        if self.pending.writes and self.pending.kind not in "LB":
            self.changes += 1
        os.write(self.out, how)
        self.advance()

    def close(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.inp)
        os.close(self.out)
        os.waitpid(self.pid, 0)


class Node:
    """A scheduling decision."""

    __slots__ = ("enabled", "backtrack", "done", "sleep", "pending", "proc", "step", "clock")

    def __init__(self, enabled, pending, sleep):
        self.enabled, self.pending, self.sleep = enabled, pending, sleep
        self.backtrack, self.done = set(), set()
        self.proc = self.step = self.clock = None


def execute(programs, watch, nodes, schedule=None, crash=None):
    """One execution along nodes (extended in place), or along a schedule; crash: (process, changing step, torn)."""
    procs = []
    trace = []
    blocked = False
    try:
        for func in programs:
            procs.append(Proc(func, watch))
        for proc in procs:
            proc.advance()
        depth = 0
        while True:
            pending = {i: p.pending for i, p in enumerate(procs) if p.result is None}
            if not pending:
                break
            enabled = [i for i in pending if not procs[i].stalled]
            if not enabled:
                if len(trace) and sum(1 for _, s in trace[-LONE_LIMIT:] if s.kind == "B") > 50:
                    raise Violation("processes wait for each other")
                for proc in procs:
                    proc.stalled = False
                enabled = list(pending)
            if depth > STEP_LIMIT:
                raise Violation("no end after %d steps" % depth)
            if len(pending) == 1 and procs[enabled[0]].steps > LONE_LIMIT + 300:
                raise Violation("the last process does not finish: %s" % pending[enabled[0]].text)
            if schedule is not None:
                choice = schedule[depth] if depth < len(schedule) and schedule[depth] in pending else enabled[0]
            elif depth < len(nodes):
                choice = nodes[depth].proc
                if choice not in pending:
                    raise RuntimeError("the execution is not repeatable")
                nodes[depth].pending = pending
            else:
                prev = nodes[-1] if nodes else None
                sleep = set()
                if prev is not None:
                    sleep = {q for q in prev.sleep | (prev.done - {prev.proc}) if q in pending and q != prev.proc
                             and not prev.pending[q].conflicts(prev.step)}
                node = Node(enabled, pending, sleep)
                awake = [i for i in enabled if i not in sleep]
                if not awake:
                    blocked = True
                    break
                last = nodes[-1].proc if nodes else None
                choice = last if last in awake else awake[0]
                node.backtrack.add(choice)
                nodes.append(node)
                node.proc = choice
            step = pending[choice]
            if schedule is None:
                nodes[depth].proc, nodes[depth].step = choice, step
            trace.append((choice, step))
            depth += 1
            proc = procs[choice]
            how = b"g"
            if crash and crash[0] == choice and step.writes and step.kind not in "LB" and proc.changes + 1 == crash[1]:
                how = b"k" if crash[2] == 0 else str(crash[2]).encode()
            proc.grant(how)
            if step.writes or proc.result is not None:
                for other in procs:
                    if other is not proc:
                        other.stalled = False
            if proc.result is None and proc.pending.kind == "B":
                proc.stalled = True
        rest = {i: p.pending for i, p in enumerate(procs) if p.result is None}
        return trace, [p.result for p in procs], rest if blocked else None
    finally:
        for proc in procs:
            proc.close()


def races(trace, nodes, rest=None):
    """Add the backtracking points that this execution asks for (rest: steps that were still to come)."""
    count = max([p for p, _ in trace] + list(rest or [])) + 1 if trace else 0
    done = len(trace)
    trace = trace + list((rest or {}).items())
    clocks = []
    last = [[0] * count for _ in range(count)]
    for num, (proc, step) in enumerate(trace):
        clock = list(last[proc])
        # the last conflicting steps of the others that did not happen before
        for other in range(count):
            if other == proc:
                continue
            for j in range(min(num, done) - 1, -1, -1):
                pj, sj = trace[j]
                if pj != other or not sj.conflicts(step):
                    continue
                if clocks[j][other] > clock[other]:
                    # a race: the step could have come before j
                    node = nodes[j]
                    if proc in node.enabled:
                        node.backtrack.add(proc)
                    else:
                        node.backtrack.update(node.enabled)
                break
        for j in range(min(num, done)):
            pj, sj = trace[j]
            if pj != proc and sj.conflicts(step):
                clock = [max(a, b) for a, b in zip(clock, clocks[j])]
        if num >= done:
            clocks.append(clock)
            continue
        clock[proc] = num + 1
        clocks.append(clock)
        last[proc] = clock


def search(make, judge, crash=None, limit=None, keep=None):
    """Explore; yields (schedule, trace, message or None).

    make() -> (programs, watch, cleanup); judge(results) raises Violation.
    """
    nodes = []
    count = 0
    while True:
        programs, watch, cleanup = make()
        message, trace, rest = None, [], None
        try:
            try:
                trace, results, rest = execute(programs, watch, nodes, crash=crash)
                if rest is None:
                    judge(results, trace)
            except Violation as err:
                message = str(err)
                if not trace:
                    trace = [(n.proc, n.step) for n in nodes if n.step is not None]
        finally:
            cleanup()
        count += 1
        yield [p for p, _ in trace], trace, message, rest is not None
        del nodes[len(trace):]
        races(trace, nodes, rest)
        while nodes:
            node = nodes[-1]
            node.done.add(node.proc)
            todo = [p for p in sorted(node.backtrack) if p not in node.done and p not in node.sleep]
            if todo:
                node.proc, node.step = todo[0], None
                break
            nodes.pop()
        if not nodes or (limit and count >= limit):
            return
