"""Controlled execution: a dask scheduler that asks for the order of tasks, and threads stepped line by line."""
import os
import sys
import threading
import time

from mc.env import REPO

PREFIX = os.path.join(REPO, "pyspectral") + os.sep
STUCK_S = 0.6


def nodes(dsk):
    """{key: callable node} with dependencies, whatever form the graph has."""
    from dask._task_spec import convert_legacy_graph
    if hasattr(dsk, "__dask_graph__"):
        dsk = dsk.__dask_graph__()
    return convert_legacy_graph(dict(dsk))


def is_data(node):
    return type(node).__name__ in ("DataNode", "Alias")


def collect(keys, values):
    if isinstance(keys, list):
        return [collect(k, values) for k in keys]
    return values[keys]


def ordered_get(choose):
    """A scheduler that asks *choose* which ready task comes next."""
    def get(dsk, keys, **kwargs):
        graph = nodes(dsk)
        values, todo = {}, dict(graph)
        while todo:
            ready = [k for k in sorted(todo, key=str) if all(d in values for d in todo[k].dependencies)]
            assert ready, "circular graph"
            plain = [k for k in ready if is_data(todo[k])]
            key = plain[0] if plain else ready[0] if len(ready) == 1 else choose(ready)
            values[key] = todo.pop(key)(values)
        return collect(keys, values)
    return get


def forbidden_get(dsk, keys, **kwargs):
    raise AssertionError("evaluated while it was built")


class Controller:
    """Runs functions in threads of which one moves at a time; decide(options) is asked at every line of pyspectral."""

    def __init__(self, decide, bound):
        self.decide, self.bound = decide, bound
        self.cond = threading.Condition()
        self.current = 0
        self.steps = []
        self.done = []
        self.errors = []
        self.switches = 0
        self.lines = 0

    def run(self, funcs):
        self.steps = [0] * len(funcs)
        self.done = [False] * len(funcs)
        self.errors = [None] * len(funcs)
        results = [None] * len(funcs)

        def body(num):
            self._wait(num)
            sys.settrace(self._tracer(num))
            try:
                results[num] = funcs[num]()
            except BaseException as err:
                self.errors[num] = err
            finally:
                sys.settrace(None)
                with self.cond:
                    self.done[num] = True
                    if self.current == num:
                        rest = [i for i, d in enumerate(self.done) if not d]
                        if rest:
                            self.current = rest[0]
                    self.cond.notify_all()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(funcs))]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
            assert not thread.is_alive(), "deadlock"
        for err in self.errors:
            if err is not None:
                raise err
        return results

    def _wait(self, num):
        with self.cond:
            while self.current != num:
                owner, seen = self.current, self.steps[self.current]
                t0 = time.time()
                while self.current == owner and self.current != num and time.time() - t0 < STUCK_S:
                    self.cond.wait(0.05)
                if self.current == owner and owner != num and self.steps[owner] == seen and not self.done[owner]:
                    # the owner is blocked by something a waiting thread holds
                    self.current = num
                    self.cond.notify_all()

    def _tracer(self, num):
        def local(frame, event, arg):
            if event == "line":
                self._step(num)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                return local
            return None
        return tracer

    def _step(self, num):
        with self.cond:
            self.steps[num] += 1
            self.lines += 1
            others = [i for i, d in enumerate(self.done) if not d and i != num]
            if self.current == num and others and self.switches < self.bound:
                target = self.decide([num] + others)
                if target != num:
                    self.switches += 1
                    self.current = target
                    self.cond.notify_all()
        if self.current != num:
            self._wait(num)
