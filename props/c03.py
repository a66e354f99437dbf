"""C03: time expressions and market periods denote what is documented; invalid ones make the start fail."""
import datetime
import re

from hypothesis import strategies as st

from harness import gen, sandbox, schedmodel, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C03"
LEVEL = "exploration"
RULE = ("A case is either a set of valid expressions with a market period (default, from the options as strings or time objects, or from "
        "the configuration file), whose firings over two simulated days are compared with what they denote, or a set with one invalid expression "
        "or market period (grammar mutations and arbitrary text), for which the start must fail and nothing may run. Non-trivial: "
        "a valid case in which every task fired, or an invalid one.")
ASSUMPTIONS = ["Left open, because the documentation is silent: a unit given twice, more than two colons, blanks, signs and other digits inside "
               "an expression, and a market period that is not in order."]
QUICK = 350
THOROUGH = 5000

VALID_CLOCK = re.compile(r"^(\d{1,2}):(\d{1,2})(?::(\d{1,2}))?$", re.A)
VALID_BASE = re.compile(r"^(open|close)(?:[+-]((?:\d{1,2}[hms]){1,3}))?$", re.A)


def kind(expr):
    """valid / invalid / open"""
    if expr in ("every_minute", "before_open", "after_close"):
        return "valid"
    m = VALID_CLOCK.match(expr)
    if m and expr == expr.strip():
        h, mi, s = int(m.group(1)), int(m.group(2)), int(m.group(3) or 0)
        return "valid" if h < 24 and mi < 60 and s < 60 else "invalid"
    m = VALID_BASE.match(expr)
    if m and expr == expr.strip():
        units = re.findall("[hms]", m.group(2) or "")
        return "valid" if len(units) == len(set(units)) else "open"
    if any(c.isspace() for c in expr) or not expr.isascii():
        return "open"
    if ":" in expr:
        try:
            nums = [int(x) for x in expr.split(":")]
        except ValueError:
            # a part beyond the third is not looked at today
            parts = expr.split(":")
            if len(parts) > 3:
                return "open"
            return "invalid"
        if len(nums) > 3:
            return "open"
        h, mi, s = nums[0], nums[1], nums[2] if len(nums) > 2 else 0
        return "open" if 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 else "invalid"
    return "invalid"


@st.composite
def mutated(draw):
    s = draw(mix(gen.exprs(99), st.sampled_from(["every_minute", "before_open", "open", "close"])))
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.integers(0, 3))
        i = draw(st.integers(0, max(0, len(s))))
        c = draw(st.sampled_from("+-:0123456789hmsdxOopencl_. "))
        if op == 0:
            s = s[:i] + c + s[i:]
        elif op == 1:
            s = s[:i] + s[i + 1:]
        elif op == 2:
            s = s[:i] + c + s[i + 1:]
        else:
            s = s + draw(st.sampled_from(["+1m", "-1h", "h", ":00", "5", "m"]))
    return s


invalid_exprs = mix(
    mutated(), mutated(),
    st.sampled_from(["", "noon", "open+", "open-", "close+5", "open+m", "open+5d", "open+100m", "24:00", "9:60", "10:00:60", "open+1h1m1s1h",
                     "everyminute", "every_minutes", "mid", "opens", "closed", "+1m", "open+1.5h", "open*1m", "10", "1000", "Open",
                     "noon+1h", "before_open+5m", "after_close-1m", "every_minute+1m", "open-1m-1m", "10:", ":", "::", "a:b", "10:5x",
                     "-1:00", "99:99", "1:2:99", "open+1h30"]),
    st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=126), max_size=12)).filter(lambda e: kind(e) == "invalid")

bad_periods = st.sampled_from([
    [["09:30:00"]], [["09:30:00", "11:30:00", "12:00:00"]], [["09:30", "11:30:00"]], [["25:00:00", "26:00:00"]],
    [["09:30:00", "x"]], [[930, 1130]], [["", ""]], [["09:30:00", None]], [["09:30:00", "11:30:00"], ["13:00:00"]],
    [["09:30:00", "11:60:00"]], [[]]])


@st.composite
def cases(draw, tier):
    bad = draw(st.sampled_from([None, None, "expr", "expr", "period"]))
    start = draw(gen.dates).isoformat() + "T23:59:59.500000"
    if bad is None and draw(st.booleans()):
        start = draw(gen.starts())
    c = {"start": start, "via": draw(st.sampled_from(["default", "options", "times", "config"])), "bad": bad,
         "tasks": draw(st.lists(mix(gen.exprs(draw(st.sampled_from([9, 99]))), st.sampled_from(
             ["every_minute"] if draw(st.integers(0, 4)) == 0 else ["open", "close"])), min_size=1, max_size=6, unique=True)),
         "period": None, "log_period_last": draw(st.booleans())}
    if c["via"] != "default":
        c["period"] = draw(gen.market_periods(max_minutes=120))
        if c["period"] is None:
            c["via"] = "default"
    if bad == "expr":
        c["tasks"].insert(draw(st.integers(0, len(c["tasks"]))), draw(invalid_exprs))
    elif bad == "period":
        c["via"] = "options"
        c["period"] = draw(bad_periods)
    return c


def strategy(tier):
    return cases(tier)


def as_times(period):
    return [tuple(datetime.time(*map(int, x.split(":"))) for x in p) for p in period]


def simulate(case):
    start = sim.un(case["start"])
    horizon = start + datetime.timedelta(hours=6 if case["bad"] else 49)
    argv = []
    if case["via"] == "config":
        with open("vconf.py", "w") as f:
            f.write("import datetime\nSCHEDULER_MARKET_PERIOD = %r\n" % (as_times(case["period"]),))
        argv = ["--config", "vconf.py"]

    def initialize(g, ctx):
        def options():
            opts = {"use_account": False, "runtime_dir": "run"}
            if case["via"] == "options":
                opts["market_period"] = [tuple(p) for p in case["period"]]
            elif case["via"] == "times":
                opts["market_period"] = as_times(case["period"])
            g["set_options"](**opts)
        if not case["log_period_last"]:
            options()
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](g["f%d" % i], e)
        if case["log_period_last"]:
            options()
        sandbox.rec("ready", t=vt.now_ns())

    def fire(i, g, ctx):
        sandbox.rec("fire", i=i, t=vt.now_ns(), s=vt.to_ns(ctx.strategy_dt))

    return sim.start_task(start, horizon, initialize, fire, nfuncs=len(case["tasks"]), argv=argv)


def judge(case, res):
    if res.status != "ok":
        raise Violation("the strategy process %s (tasks %r)\n%s" % (res.describe(), case["tasks"], res.output[-1500:]))
    end = res.value
    fires = [e for e in res.trace if e["k"] == "fire"]
    if case["bad"]:
        bad = [t for t in case["tasks"] if kind(t) == "invalid"] if case["bad"] == "expr" else case["period"]
        if end["end"] == "return" or (end["end"] == "exit" and end["msg"] in ("0", "None")):
            raise Violation("start_task did not fail although the %s is invalid: %r%s" % (
                "time expression" if case["bad"] == "expr" else "market period", bad,
                "; fired at %s" % [str(vt.from_ns(e["t"])) for e in fires[:3]] if fires else ""))
        if fires:
            raise Violation("a task ran although the start has to fail: %r" % bad)
        return Outcome(True, ["invalid " + case["bad"]], {"case": case, "error": "%s: %s" % (end["exc"], end["msg"])})
    if end["end"] != "return":
        raise Violation("start_task failed with %s: %s for the valid tasks %r, market period %r\n%s" % (
            end["exc"], end["msg"], case["tasks"], case["period"], end["tb"]))
    start = sim.un(case["start"])
    ready = [e["t"] for e in res.trace if e["k"] == "ready"][0]
    horizon = [e["t"] for e in res.trace if e["k"] == "horizon"]
    if not horizon:
        raise Violation("the process ended by itself")
    horizon = horizon[0]
    for i, expr in enumerate(case["tasks"]):
        got = [e["s"] for e in fires if e["i"] == i]
        for e in fires:
            if e["i"] == i and not 0 <= e["t"] - e["s"] < 2 * vt.NS:
                raise Violation("%r due %s ran at %s" % (expr, vt.from_ns(e["s"]), vt.from_ns(e["t"])))
        own = [vt.to_ns(x) for x in schedmodel.due(expr, case["period"], start.date(), start.date() + datetime.timedelta(8))]
        prev = [vt.to_ns(x) for x in schedmodel.due(expr, case["period"], start.date() - datetime.timedelta(6),
                                                    start.date() - datetime.timedelta(1))]
        want = [n for n in own if ready + vt.NS // 10 < n <= horizon - vt.NS]
        allowed = set(n for n in own if ready - vt.NS < n) | set(prev)
        missing = [n for n in want if n not in got]
        extra = [n for n in got if n not in allowed]
        if missing or extra or len(set(got)) != len(got):
            raise Violation("%r under market period %r: missing %s, wrong %s, doubled %s" % (
                expr, case["period"] or "default", [str(vt.from_ns(n)) for n in missing[:3]],
                [str(vt.from_ns(n)) for n in extra[:3]], len(got) - len(set(got))))
    return Outcome(all(any(e["i"] == i for e in fires) for i in range(len(case["tasks"]))),
                   ["valid via " + case["via"]] + ["every_minute"] * ("every_minute" in case["tasks"]),
                   {"case": case, "firings": len(fires)})


def run(case, env):
    if case["bad"] is None and any(kind(t) != "valid" for t in case["tasks"]):
        raise RuntimeError("generator bug: %r" % case["tasks"])
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
