"""C05: a failing callback ends the run with its error; a stop signal ends it cleanly."""
import datetime
import os
import signal

from hypothesis import strategies as st

from harness import gen, sandbox, sim, vt
from harness.core import Outcome, Violation

ID = "C05"
LEVEL = "exploration"
RULE = ("A case is a set of tasks with generated callback durations and one fault: an exception raised by the k-th callback, or SIGTERM or SIGINT "
        "delivered at a virtual instant while the process waits, or inside the k-th callback (with late tasks queued behind it or not). "
        "Non-trivial: the fault happened and at least one further callback would have been due.")
ASSUMPTIONS = ["A signal that arrives before the event loop runs (during loading or process_initialize) is left open."]
QUICK = 300
THOROUGH = 6000

EXCS = ["ValueError", "KeyError", "Custom", "InvalidCall", "OSError", "UnicodeError", "StopIteration", "RecursionError",
        "AssertionError", "QueueEmptyError", "Empty", "TimeoutError", "KeyErrorNoArgs", "SystemExit",
        "KeyboardInterrupt", "CancelledError", "CustomBase", "Falsy", "BadStr", "Slots"]


@st.composite
def cases(draw, tier):
    d = draw(gen.dates)
    base = draw(st.sampled_from(["09:29:00", "23:58:00", "09:00:00", "14:58:00"]))
    start = datetime.datetime.fromisoformat("%sT%s.500000" % (d, base))
    tasks = []
    for i in range(draw(st.integers(1, 6))):
        s = draw(st.integers(1, 300))
        t = start + datetime.timedelta(seconds=s)
        tasks.append(t.strftime("%H:%M:%S"))
    if draw(st.booleans()):
        tasks.append("every_minute")
    kind = draw(st.sampled_from(["exc", "exc", "signal", "signal", "signal", "idle"]))
    c = {"start": sim.iso(start), "tasks": tasks, "hours": 26, "kind": kind, "k": draw(st.integers(0, 8)),
         "busy": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 9), st.integers(1, 400)), max_size=4))],
         "out": draw(st.booleans()), "debug": draw(st.booleans())}
    if kind == "exc":
        c["exc"] = draw(st.sampled_from(EXCS))
        c["msg"] = draw(st.text(max_size=8).filter(lambda s: s.isprintable()))
    else:
        c["sig"] = draw(st.sampled_from([15, 2]))
        c["twice"] = draw(st.integers(0, 5)) == 0
        c["at"] = draw(st.integers(1, 400))
        c["after"] = draw(st.sampled_from([0, 0, 5, 100, 400]))
    return c


def strategy(tier):
    return cases(tier)


class Custom(Exception):
    def __init__(self, msg=""):
        Exception.__init__(self, "custom", msg)


class CustomBase(BaseException):
    pass


class Falsy(Exception):
    """An error that holds a list of problems, like those of validation libraries."""
    def __len__(self):
        return 0


class BadStr(Exception):
    def __str__(self):
        return self.args[5]

    def __repr__(self):
        return self.args[5]


class Slots(Exception):
    """An error whose attributes cannot be set."""
    def __setattr__(self, name, value):
        raise AttributeError(name)


def make_exc(name, msg):
    import asyncio
    if name == "Custom":
        return Custom(msg)
    if name == "KeyErrorNoArgs":
        return KeyError()
    if name == "InvalidCall":
        from jqtrade.common.exceptions import InvalidCall
        return InvalidCall(msg)
    if name == "QueueEmptyError":
        from jqtrade.scheduler.queue import QueueEmptyError
        return QueueEmptyError(msg)
    if name == "Empty":
        import queue
        return queue.Empty(msg)
    return {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "UnicodeError": UnicodeError,
            "StopIteration": StopIteration, "RecursionError": RecursionError, "AssertionError": AssertionError,
            "TimeoutError": TimeoutError, "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt,
            "CancelledError": asyncio.CancelledError, "CustomBase": CustomBase, "Falsy": Falsy, "BadStr": BadStr, "Slots": Slots}[name](msg)


def simulate(case):
    start = sim.un(case["start"])
    horizon = start + datetime.timedelta(hours=case["hours"])
    busy = dict(case["busy"])
    n = [0]
    raised = []

    def kill():
        sandbox.rec("fault", t=vt.now_ns())
        os.kill(os.getpid(), case["sig"])
        if case["twice"]:
            os.kill(os.getpid(), case["sig"])

    def initialize(g, ctx):
        g["set_options"](use_account=False, runtime_dir="run")
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](g["f%d" % i], e)
        if case["kind"] == "idle":
            vt.at(start + datetime.timedelta(seconds=case["at"]), kill)

    def fire(i, g, ctx):
        k = n[0]
        n[0] += 1
        sandbox.rec("begin", i=i, k=k, t=vt.now_ns(), s=vt.to_ns(ctx.strategy_dt))
        vt.advance(busy.get(k, 0))
        if k == case["k"] and case["kind"] == "exc":
            e = make_exc(case["exc"], case["msg"])
            raised.append(e)
            sandbox.rec("fault", t=vt.now_ns())
            raise e
        if k == case["k"] and case["kind"] == "signal":
            kill()
            vt.advance(case["after"])
        sandbox.rec("stop", i=i, k=k, t=vt.now_ns())

    argv = (["-o", "log.txt"] if case["out"] else []) + (["--debug"] if case["debug"] else [])
    end = sim.start_task(start, horizon, initialize, fire, nfuncs=len(case["tasks"]), argv=argv)
    if raised:
        end["want"] = [type(raised[0]).__name__, sim.text(raised[0])]
    return end


def judge(case, res):
    if res.status != "ok":
        raise Violation("the strategy process %s\n%s" % (res.describe(), res.output[-1500:]))
    end, tr = res.value, res.trace
    fault = [i for i, e in enumerate(tr) if e["k"] == "fault"]
    hz = any(e["k"] == "horizon" for e in tr)
    if any(e["k"] == "nostop" for e in tr):
        raise Violation("the process did not stop on SIGTERM")
    if not fault:
        if end["end"] != "return":
            raise Violation("start_task failed without a fault: %s %s\n%s" % (end["exc"], end["msg"], end["tb"]))
        if not hz:
            raise Violation("the run ended by itself without an error or a signal")
        return Outcome(False, ["fault not reached"])
    f = fault[0]
    begun = [e for e in tr[:f] if e["k"] == "begin"]
    
    after = [e for e in tr[f + 1:] if e["k"] == "begin"]
    what = {"exc": "exception %s" % case.get("exc"), "signal": "signal %s inside callback %d" % (case.get("sig"), case["k"]),
            "idle": "signal %s while waiting" % case.get("sig")}[case["kind"]]
    if after:
        raise Violation("%d callback(s) ran after the %s (tasks %s, busy %s): first task %d due %s" % (
            len(after), what, case["tasks"], case["busy"], after[0]["i"], vt.from_ns(after[0]["s"])))
    if hz:
        raise Violation("the run went on after the %s and only ended at the horizon" % what)
    if case["kind"] == "exc":
        if end["end"] not in ("exception", "exit"):
            raise Violation("start_task ended with %s after the %s" % (end["end"] + " " + str(end["msg"]), what))
        if [end["exc"], end["msg"]] != end["want"]:
            raise Violation("start_task failed with %s %r, the callback raised %s %r" % (
                end["exc"], end["msg"], end["want"][0], end["want"][1]))
    else:
        if end["end"] != "return":
            raise Violation("start_task ended with %s %s after the %s\n%s" % (end["exc"], end["msg"], what, end["tb"]))
        if len(begun) != sum(1 for e in tr if e["k"] == "stop"):
            raise Violation("the callback in progress was not completed after the %s" % what)
        if end["t"] - max(e["t"] for e in tr[:-1]) > vt.NS:
            raise Violation("the process took %.1f s to stop after the %s" % ((end["t"] - tr[f]["t"]) / 1e9, what))
    # all tasks recur daily, so that something was always due later; late ones are the interesting case
    start = sim.un(case["start"])
    t_end = vt.from_ns(end["t"])
    late = False
    for x in case["tasks"]:
        if x != "every_minute":
            for day in (start.date(), start.date() + datetime.timedelta(1)):
                due = datetime.datetime.combine(day, datetime.time.fromisoformat(x))
                if start < due < t_end and not any(b["s"] == vt.to_ns(due) for b in begun):
                    late = True
    return Outcome(True, [case["kind"]] + ["late tasks queued"] * late + ["sig%s" % case.get("sig")] * ("sig" in case),
                   {"case": case, "callbacks": len(begun)})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
