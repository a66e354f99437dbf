"""C01: every scheduled task runs exactly once per due time, never early, however long the process runs."""
import collections
import datetime

from hypothesis import strategies as st

from harness import gen, sandbox, schedmodel, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C01"
LEVEL = "exploration"
RULE = ("A case is a set of run_daily tasks (with functions of their own, shared ones, or ones of the same name), a market period, a start instant, a horizon and a disturbance plan (slow "
        "callbacks, late wake-ups, suspensions, wall-clock steps, a small or default event horizon); the real "
        "start_task command runs it to the horizon under virtual time and the recorded firings are compared with the "
        "reference schedule. Non-trivial: at least one firing was due and the run spans a midnight or contains a "
        "disturbance that took effect.")
ASSUMPTIONS = ["Time zones without daylight saving (Asia/Shanghai, UTC, Asia/Kolkata, Pacific/Honolulu).",
               "Tasks due while process_initialize itself still runs, and tasks of the previous day whose offset "
               "crosses midnight at start-up, are left open.",
               "Trading sessions are disjoint and in order."]
QUICK = 300
THOROUGH = 1500


@st.composite
def cases(draw, tier):
    start = draw(gen.starts())
    period = draw(mix(st.none(), st.none(), gen.market_periods()))
    tasks = draw(st.lists(gen.exprs(max_h=draw(st.sampled_from([4, 4, 12, 99]))), min_size=1, max_size=6))
    if draw(st.integers(0, 11)) == 0:        # many tasks
        tasks += draw(st.lists(gen.exprs(max_h=4), min_size=15, max_size=40))
    minute = draw(st.integers(0, 3)) == 0
    if minute:
        tasks.insert(draw(st.integers(0, len(tasks))), "every_minute")
    hours = draw(mix(st.integers(1, 60), st.integers(20, 50 if minute else 24 * 12)))
    days_count = draw(st.sampled_from([None, None, 1, 2, 3]))
    busy = draw(st.lists(st.tuples(st.integers(0, 40), mix(st.integers(1, 200), st.integers(200, 90000),
                                                                 st.sampled_from([0.01, 0.999, 60, 3600, 86400]))),
                         max_size=4))
    disturb = draw(st.lists(st.tuples(st.sampled_from(["suspend", "step", "sleepstep"]), st.integers(60, hours * 3600),
                                      st.integers(-300, 20000)), max_size=2))
    return {"start": start, "hours": hours, "period": period, "tasks": tasks, "busy": [list(b) for b in busy],
            "jitter_ms": draw(st.sampled_from([0, 0, 1, 15, 900, 30000])), "init_busy": draw(st.sampled_from(
                [0, 0, 0, 3, 700])), "disturb": [list(d) for d in disturb], "days_count": days_count,
            "use_dt": draw(st.booleans()), "funcs": draw(st.sampled_from(["own", "own", "own", "one", "pairs", "lambda", "method"]))}


def strategy(tier):
    return cases(tier)


def explicit_cases(tier):
    # longer than the default horizon of 365 generated days, with the process idle and with a late callback
    base = {"period": None, "jitter_ms": 0, "init_busy": 0, "disturb": [], "days_count": None, "use_dt": False, "funcs": "own"}
    yield dict(base, start="2023-11-06T08:59:59.500000", hours=24 * 371, tasks=["10:00:00", "close+30m"], busy=[])
    yield dict(base, start="2024-02-29T23:50:00.500000", hours=24 * 369, tasks=["23:55:00", "00:00:00", "open"],
               busy=[[1090, 90000], [1096, 200000]])
    yield dict(base, start="2025-01-01T15:00:00.500000", hours=24 * 735, tasks=["open-30m"], busy=[])


class Holder:
    def __init__(self, i, g):
        self.i, self.g = i, g

    def on_time(self, context):
        self.g["f%d" % self.i](context)


def callback(case, i, g):
    """functions of their own, one function for several tasks, or different ones of the same name"""
    how = case.get("funcs", "own")
    if how == "lambda":
        return lambda context: g["f%d" % i](context)
    if how == "method":
        return Holder(i, g).on_time
    return g["f%d" % group(case, i)]


def group(case, i):
    return {"one": 0, "pairs": i // 2}.get(case.get("funcs", "own"), i)


def make_config(case):
    if case["days_count"] is None:
        return []
    with open("vconf.py", "w") as f:
        f.write("SCHEDULER_EVENT_DAYS_COUNT = %d\n" % case["days_count"])
    return ["--config", "vconf.py"]


def simulate(case):
    start = sim.un(case["start"])
    horizon = start + datetime.timedelta(hours=case["hours"])
    busy = {}
    for i, s in case["busy"]:
        busy[i] = s
    count = [0]

    def initialize(g, ctx):
        opts = {"use_account": False, "runtime_dir": "run"}
        if case["period"]:
            per = case["period"]
            if case["use_dt"]:
                per = [tuple(datetime.time(*map(int, x.split(":"))) for x in p) for p in per]
            opts["market_period"] = per
        g["set_options"](**opts)
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](callback(case, i, g), e)
        if case["init_busy"]:
            vt.advance(case["init_busy"])
        sandbox.rec("ready", t=vt.now_ns())
        for kind, off, amount in case["disturb"]:
            vt.at(start + datetime.timedelta(seconds=off), lambda k=kind, n=amount: disturb(k, n))

    def disturb(kind, n):
        t0 = vt.now_ns()
        if kind == "suspend":                   # all clocks move on, the process sleeps through it
            vt.lib().vt_advance(abs(n) * vt.NS)
        elif kind == "step":                    # the wall clock is set, small steps back, larger ones forward
            vt.step_wall(n)
        else:                                   # suspend as Linux counts it: only the wall clock moves on
            vt.step_wall(abs(n))
        sandbox.rec("disturb", kind=kind, n=n, t0=t0, t1=vt.now_ns())

    def fire(i, g, ctx):
        t = vt.now_ns()
        b = busy.get(count[0], 0)
        count[0] += 1
        s = ctx.strategy_dt
        if b:
            vt.advance(b)
        sandbox.rec("fire", i=i, t=t, s=vt.to_ns(s), busy=b, e=vt.now_ns())

    def before():
        if case["jitter_ms"]:
            vt.jitter(case["jitter_ms"] / 1000.0)

    return sim.start_task(start, horizon, initialize, fire, nfuncs=len(case["tasks"]), argv=make_config(case),
                          before=before)


def fmt(ns):
    return vt.from_ns(ns).isoformat(sep=" ")


def judge(case, res):
    if res.status != "ok":
        raise Violation("the strategy process %s\ncase: %s\n%s" % (res.describe(), case, res.output[-1500:]))
    end = res.value
    if end["end"] != "return":
        raise Violation("start_task ended with %s: %s\n%s" % (end["exc"], end["msg"], end["tb"]))
    tr = res.trace
    if any(e["k"] == "nostop" for e in tr):
        raise Violation("the process did not react to SIGTERM at the horizon")
    start = sim.un(case["start"])
    ready = [e["t"] for e in tr if e["k"] == "ready"][0]
    horizon = [e["t"] for e in tr if e["k"] == "horizon"]
    if not horizon:
        raise Violation("the process ended by itself before the horizon")
    horizon = horizon[0]
    fires = [e for e in tr if e["k"] == "fire"]
    dist = [e for e in tr if e["k"] == "disturb"]
    stepped = any(e["kind"] != "suspend" for e in dist)
    first = start.date() - schedmodel.DAY
    last = max(vt.from_ns(horizon), start + datetime.timedelta(hours=case["hours"])).date() + 6 * schedmodel.DAY
    legal, must = {}, []
    for i, expr in enumerate(case["tasks"]):
        d = schedmodel.due(expr, case["period"], first, last)
        ns = [vt.to_ns(x) for x in d]
        k = group(case, i)
        legal.setdefault(k, collections.Counter()).update(set(ns))
        own = schedmodel.due(expr, case["period"], max(start, vt.from_ns(ready)).date(), last)
        must.append(set(n for n in map(vt.to_ns, own) if n > ready + vt.NS // 10))
    start_ns = vt.to_ns(start)
    seen = collections.Counter()
    for e in fires:
        i, s, t = e["i"], e["s"], e["t"]
        what = "task %d (%r%s) due %s, run at %s" % (i, case["tasks"][i], "" if case.get("funcs", "own") == "own" else ", functions: " + case["funcs"], fmt(s), fmt(t))
        if s not in legal[i]:
            raise Violation("a task ran for a time it is not scheduled for: %s" % what)
        if s < start_ns:
            raise Violation("a task ran for a time before the process was started: %s" % what)
        if seen[i, s] >= legal[i][s]:
            raise Violation("a task ran twice for the same due time: %s" % what)
        seen[i, s] += 1
        if t < s:
            raise Violation("a task ran early: %s" % what)
    slack = 2 * vt.NS + case["jitter_ms"] * 1000000 * 2
    if max([0] + [e["e"] for e in fires[-1:]] + [d["t1"] for d in dist]) >= horizon - slack:
        limit = max([0] + [e["s"] for e in fires[-1:]]) - 1            # busy up to the end: everything due before the last one must have run
    else:
        limit = horizon - slack
    if stepped:
        # only waits armed with the clock of before the step may be late: what was due before the last firing counts
        limit = min(limit, max([f["s"] for f in fires] or [0]) - 1)
    ndue = 0
    for i in range(len(case["tasks"])):
        for n in sorted(must[i]):
            if n <= limit:
                ndue += 1
                k = group(case, i)
                if seen[k, n] < sum(1 for j in range(len(case["tasks"])) if group(case, j) == k and n in must[j]):
                    raise Violation("a due task never ran: task %d (%r) due %s (process ran %s .. %s)" % (
                        i, case["tasks"][i], fmt(n), case["start"], fmt(horizon)))
    if not stepped:
        prev_end = ready
        for e in fires:
            avail = max([e["s"], prev_end] + [x["t1"] for x in dist if x["t0"] <= e["t"]])
            if e["t"] > avail + slack:
                raise Violation("a task ran late although the process was idle: task %d (%r) due %s, run at %s" % (
                    e["i"], case["tasks"][e["i"]], fmt(e["s"]), fmt(e["t"])))
            prev_end = max(prev_end, e["e"])
    days = len(set(fmt(e["s"])[:10] for e in fires))
    late = any(e["t"] - e["s"] > vt.NS for e in fires)
    labels = ["days=%s" % (days if days < 4 else "4-30" if days < 31 else "31-365" if days <= 365 else ">365")]
    labels += ["late"] * late + ["every_minute"] * ("every_minute" in case["tasks"]) + ["functions: " + case.get("funcs", "own")]
    labels += sorted(set(d["kind"] for d in dist))
    if case["days_count"] and days > case["days_count"]:
        labels.append("past the generated days")
    return Outcome(bool(fires) and ndue > 0 and (days > 1 or late or bool(dist)), labels,
                   {"case": case, "firings": len(fires), "due": ndue}, 1)


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
