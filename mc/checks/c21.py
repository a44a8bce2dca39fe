"""C21: switching logging on and off."""
import io
import logging
import os
import pickle
import sys
import traceback

from mc.core import Violation, check

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


class Handler(logging.StreamHandler):
    """A handler of the application."""


def in_child(func):
    """Run *func* in a forked process (a pristine logging system) and return its result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            try:
                result = ("ok", func())
            except Violation as err:
                result = ("violation", str(err))
            except BaseException:
                result = ("violation", "unexpected error:\n" + "\n".join(traceback.format_exc().splitlines()[-12:]))
            with os.fdopen(wfd, "wb") as out:
                pickle.dump(result, out)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    check(bool(data), "the process died")
    status, value = pickle.loads(data)
    if status == "violation":
        raise Violation(value)
    return value


def run(ctx):
    from pyspectral import utils

    for handler in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(handler)

    switches = {"on": (lambda: utils.logging_on(), 30), "on-info": (lambda: utils.logging_on(logging.INFO), 20),
                "on-error": (lambda: utils.logging_on(logging.ERROR), 40), "on-25": (lambda: utils.logging_on(level=25), 25),
                "debug": (lambda: utils.debug_on(), 10), "off": (lambda: utils.logging_off(), None),
                "on-critical": (lambda: utils.logging_on(logging.CRITICAL), 50)}

    def probe(loggers, level, stream, text):
        for who, log in loggers:
            for name, num in list(LEVELS.items()) + [("25", 25)]:
                stream.seek(0)
                stream.truncate()
                marker = "marker-%s-%d-end" % (name, num)
                log.log(num, "text %s", marker)
                count = stream.getvalue().count(marker)
                want = int(level is not None and num >= level)
                check(count == want, "%s: message of level %s from %s printed %d times instead of %d", text, name, who, count,
                      want)
                if level is None:
                    check(stream.getvalue() == "", "%s: printed %r", text, stream.getvalue()[:200])

    def execute(plan, places, probing):
        stream = io.StringIO()
        sys.stderr = sys.stdout = stream
        loggers = [("module", logging.getLogger("pyspectral.utils")), ("root", logging.getLogger())]
        talkative = logging.getLogger("own.talkative")
        talkative.setLevel(logging.DEBUG)
        loggers.append(("a logger with a level of its own", talkative))
        level, started = None, False
        for step, what in enumerate(plan):
            if step in places:
                loggers.append(("logger got at %d" % step, utils.get_logger("own.name%d" % step)))
                loggers.append(("same logger again at %d" % step, utils.get_logger("own.same")))
            switches[what][0]()
            level, started = switches[what][1], True
            if probing or step == len(plan) - 1:
                if step == len(plan) - 1 and len(plan) in places:
                    loggers.append(("logger got at the end", utils.get_logger("own.last")))
                probe(loggers, level, stream, "after %s" % (plan[:step + 1],))
        return level, started, len(loggers)

    def sequences(ch):
        depth = ctx.pick(4, 5)
        plan = []
        for step in range(depth):
            what = ch.choose("step%d" % step, (["stop"] if step else []) + sorted(switches))
            if what == "stop":
                break
            plan.append(what)
        probing = ch.flag("messages in between")
        level, _, num = in_child(lambda: execute(plan, set(range(len(plan) + 1)), probing))
        ch.state(level, len(set(plan)), plan[-1])
        ch.count(num * 6)

    ctx.explore("sequences", sequences, workers=8, split=2)

    def loggers(ch):
        plan = [ch.choose("step%d" % i, ["on", "debug", "off", "on-error"]) for i in range(3)]
        places = {i for i in range(4) if ch.flag("logger%d" % i)}
        probing = ch.flag("messages in between")
        level, _, num = in_child(lambda: execute(plan, places, probing))
        ch.state(level, places)
        ch.count(num * 6)

    ctx.explore("loggers", loggers, workers=8, split=2)
    # handlers of the application on the root logger, writing elsewhere
    def others(ch):
        count = ch.choose("handlers", [1, 2, 3])
        when = ch.choose("added", [0, 1, 2])
        kind = ch.flag("of a class of its own")
        plan = [ch.choose("step%d" % i, ["on", "debug", "off", "on-error"]) for i in range(4)]

        def body():
            stream, other = io.StringIO(), io.StringIO()
            sys.stderr = sys.stdout = stream
            loggers = [("module", logging.getLogger("pyspectral.utils")), ("root", logging.getLogger())]
            for step, what in enumerate(plan):
                if step == when:
                    for _ in range(count):
                        logging.getLogger().addHandler((Handler if kind else logging.StreamHandler)(other))
                switches[what][0]()
                other.seek(0)
                other.truncate()
                probe(loggers, switches[what][1], stream, "%d other handlers from step %d: %s" % (count, when, plan[:step + 1]))
                if switches[what][1] is None:
                    check(other.getvalue() == "", "printed by another handler while off")
            return switches[plan[-1]][1]

        ch.state(count, when, kind, in_child(body))
        ch.count(48)

    ctx.explore("others", others, workers=8, split=2)
    ctx.assume("Nothing else changes levels or handlers of loggers (but adding handlers to the root logger, or giving a logger a lower level) or replaces the standard streams.")
