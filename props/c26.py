"""C26: a retried call is attempted exactly as often as configured."""
import sys
import os
import traceback

from hypothesis import strategies as st

from harness import sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C26"
LEVEL = "exploration"
RULE = ("A case is a list of retry settings (limit, wait, filter), each with calls of the wrapped function that fail in a generated pattern with generated kinds of errors and take generated time; attempts, their virtual instants, the result or "
        "the error, and the arguments are compared with a reference interpreter; wrappers are used again after success and failure. Non-trivial: a call succeeded after a failure, and one ran out of attempts or hit the filter.")
ASSUMPTIONS = []
QUICK = 250
THOROUGH = 20000

ERRORS = ["OSError", "ValueError", "KeyError", "RuntimeError", "FileNotFoundError", "StopIteration", "Custom"]
call = st.fixed_dictionaries({"fails": st.lists(st.sampled_from(ERRORS), max_size=7), "value": st.sampled_from([None, 0, "", "x", [1], False]), "args": st.lists(st.integers(0, 3), max_size=2), "kw": st.booleans(),
                              "takes": st.sampled_from([0, 0, 0.5, 3])})
setting = st.fixed_dictionaries({
    "max": mix(st.none(), st.integers(0, 6)), "wait": mix(st.none(), st.sampled_from([0, 0.001, 0.1, 0.15, 1, 60, 0.5])), "filter": st.sampled_from([None, None, "OSError", "never", "always", "even"]),
    "calls": st.lists(call, min_size=1, max_size=4), "method": st.booleans()})


def strategy(tier):
    return st.fixed_dictionaries({"settings": st.lists(setting, min_size=1, max_size=5), "start": st.just("2024-02-28T10:00:00.500000")})


class Custom(Exception):
    pass


def cls(name):
    return Custom if name == "Custom" else getattr(__import__("builtins"), name)


def simulate(case):
    from jqtrade.common.utils import simple_retry
    vt.enable(sim.un(case["start"]), 0)
    out = []
    for s in case["settings"]:
        kw = {}
        if s["max"] is not None:
            kw["max_attempts"] = s["max"]
        if s["wait"] is not None:
            kw["attempt_internal"] = s["wait"]
        asked = []

        def accept(e, s=s, asked=asked):
            asked.append(str(e))
            return decide(s["filter"], type(e).__name__, str(e))
        if s["filter"]:
            kw["on_exception"] = accept
        cur = {}

        def func(*a, **k):
            cur["at"].append(vt.now_ns())
            cur["got"].append([list(a[1:] if s["method"] else a), k])
            vt.advance(cur["call"]["takes"])
            n = len(cur["at"]) - 1
            if n < len(cur["call"]["fails"]):
                raise cls(cur["call"]["fails"][n])("error %d" % n)
            return cur["call"]["value"]
        wrapped = simple_retry(**kw)(func)
        target = wrapped
        if s["method"]:
            class Holder(object):
                run = wrapped
            target = Holder().run
        for c in s["calls"]:
            cur.update(at=[], got=[], call=c)
            del asked[:]
            t0 = vt.now_ns()
            try:
                r = ["value", target(*c["args"], **({"key": 1} if c["kw"] else {}))]
            except Exception as e:
                r = ["error", type(e).__name__, str(e)]
            out.append({"at": [t - t0 for t in cur["at"]], "end": vt.now_ns() - t0, "r": r, "got": cur["got"], "asked": list(asked)})
    return out


def decide(f, name, text):
    if f == "OSError":
        return name in ("OSError", "FileNotFoundError")
    if f == "even":
        return int(text.strip("'").split()[-1]) % 2 == 0
    return f == "always"


def guarded(case):
    try:
        return simulate(case)
    except Exception:
        sys.stdout.write(traceback.format_exc())
        sys.stdout.flush()
        os._exit(3)


def judge(case, res):
    if res.status != "ok":
        raise Violation("the retried calls: the process %s\n%s" % (res.describe(), res.output[-1200:]))
    i = 0
    healed = gave_up = False
    for s in case["settings"]:
        limit = 3 if s["max"] is None else s["max"]
        wait = int((0.1 if s["wait"] is None else s["wait"]) * vt.NS)
        for c in s["calls"]:
            got = res.value[i]
            i += 1
            t, at, asked, n = 0, [], [], 0
            takes = int(c["takes"] * vt.NS)
            while True:
                at.append(t)
                t += takes
                if n >= len(c["fails"]):
                    want = ["value", c["value"]]
                    break
                text = "error %d" % n
                name = c["fails"][n]
                want = ["error", name, repr(text) if name == "KeyError" else text]
                if s["filter"] and not decide(s["filter"], name, text):
                    gave_up = True
                    break
                if n >= limit:
                    gave_up = True
                    break
                t += wait
                n += 1
            healed |= want[0] == "value" and n > 0
            desc = "limit %s, wait %s, filter %s, call %s: " % (s["max"], s["wait"], s["filter"], c)
            if len(got["at"]) != len(at):
                raise Violation(desc + "%d attempts, expected %d" % (len(got["at"]), len(at)))
            if any(abs(a - b) > 2000 for a, b in zip(got["at"] + [got["end"]], at + [t])):
                raise Violation(desc + "attempts at %s and end at %s ns, expected %s and %s" % (got["at"], got["end"], at, t))
            if got["r"] != want:
                raise Violation(desc + "gave %s, expected %s" % (got["r"], want))
            if any(x != [c["args"], {"key": 1} if c["kw"] else {}] for x in got["got"]):
                raise Violation(desc + "the function was called with %s" % got["got"])
    return Outcome(healed and gave_up, ["succeeded after a failure"] * healed + ["gave up"] * gave_up, n=i)


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(guarded, (case,), d))
    finally:
        env.drop(d)
