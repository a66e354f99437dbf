"""C04: a replay run fires exactly the events of its window and then ends by itself."""
import datetime
import sys
import types

from hypothesis import strategies as st

from harness import gen, sandbox, schedmodel, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C04"
LEVEL = "exploration"
RULE = ("A case is a replay window (often beginning or ending exactly on a due time, or a microsecond beside it), a set of tasks, a market period and a wall-clock start; the "
        "scheduler's components run it in history mode under virtual time and the sequence of callbacks is compared with the "
        "reference schedule. Non-trivial: at least one callback was due in the window.")
ASSUMPTIONS = ["The components are wired as in the repository's own tests (history mode has no command-line switch).",
               "Events that belong to a day outside the window but whose offset moves them into it are left open."]
QUICK = 300
THOROUGH = 6000


@st.composite
def cases(draw, tier):
    d0 = draw(gen.dates)
    tasks = draw(st.lists(gen.exprs(max_h=draw(st.sampled_from([4, 4, 12]))), min_size=1, max_size=6))
    if draw(st.integers(0, 2)) == 0:
        tasks.insert(draw(st.integers(0, len(tasks))), "every_minute")
    period = draw(mix(st.none(), gen.market_periods(max_minutes=60)))
    days = draw(st.integers(0, 6 if "every_minute" in tasks else 40))
    if "every_minute" not in tasks and len(tasks) < 3 and draw(st.integers(0, 9)) == 0:
        days = draw(st.integers(360, 800))

    def border(day):
        kind = draw(st.integers(0, 3))
        base = datetime.datetime.combine(day, datetime.time())
        if kind == 0:
            return base + datetime.timedelta(seconds=draw(gen.secs_of_day))
        offs = schedmodel.offsets(draw(st.sampled_from(tasks)), period)
        s = draw(st.sampled_from(offs))
        if not 0 <= s < 86400:
            s = 0
        return base + datetime.timedelta(seconds=s, microseconds=draw(st.sampled_from([0, 0, 0, 1, -1, 500000, -500000, 1000000,
                                                                                      -1000000, 999])))
    a, b = border(d0), border(d0 + datetime.timedelta(days=days))
    if a > b:
        a, b = b, a
    wall = b + datetime.timedelta(seconds=draw(mix(st.sampled_from([0, 1, 3600]), st.integers(0, 10 ** 8))),
                                  microseconds=draw(st.integers(0, 999999)))
    busy = draw(st.lists(st.tuples(st.integers(0, 10), st.sampled_from([1, 60, 7200, 100000])), max_size=2))
    return {"start": sim.iso(a), "end": sim.iso(b), "wall": sim.iso(wall), "tasks": tasks, "period": period,
            "busy": [list(x) for x in busy], "debug": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def explicit_cases(tier):
    for days in (364, 365, 366, 740):
        a = datetime.datetime(2022, 3, 1, 9)
        yield {"start": sim.iso(a), "end": sim.iso(a + datetime.timedelta(days=days)), "wall": "2026-03-01T12:00:00.500000", "tasks": ["10:00", "open-30m"], "period": None, "busy": [], "debug": False}


def simulate(case):
    sandbox.open_trace()
    start, end, wall = sim.un(case["start"]), sim.un(case["end"]), sim.un(case["wall"])
    probe = types.ModuleType("vprobe")
    busy = dict(case["busy"])
    n = [0]

    def initialize(g, ctx):
        opts = {"use_account": False, "runtime_dir": "run"}
        if case["period"]:
            opts["market_period"] = [tuple(p) for p in case["period"]]
        g["set_options"](**opts)
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](g["f%d" % i], e)

    def fire(i, g, ctx):
        sandbox.rec("fire", i=i, t=vt.now_ns(), s=vt.to_ns(ctx.strategy_dt))
        vt.advance(busy.get(n[0], 0))
        n[0] += 1

    probe.initialize, probe.fire = initialize, fire
    sys.modules["vprobe"] = probe
    sim.write_strategy("vstrategy_case.py", len(case["tasks"]))
    from jqtrade.scheduler.bus import EventBus
    from jqtrade.scheduler.config import get_config
    from jqtrade.scheduler.context import Context
    from jqtrade.scheduler.event_source import EventSourceScheduler
    from jqtrade.scheduler.loader import Loader
    from jqtrade.scheduler.loop import EventLoop
    from jqtrade.scheduler.strategy import Strategy
    vt.enable(wall)
    get_config().ENABLE_HISTORY_START = True
    loop = EventLoop()
    ctx = Context(event_bus=EventBus(), loop=loop, scheduler=EventSourceScheduler(), loader=Loader("vstrategy_case.py"),
                  debug=case["debug"], start=start, end=end, task_name="replay", config=None, out=None)
    import os
    # a window without events leaves the loop idle, as nothing was ever pushed: ended from outside
    vt.at(wall + datetime.timedelta(days=20), lambda: (sandbox.rec("idle"), os._exit(72)))
    s = Strategy(ctx)
    s.setup()
    loop.run()
    return True


def judge(case, res):
    start, end = sim.un(case["start"]), sim.un(case["end"])
    want, legal = [], []
    for i, e in enumerate(case["tasks"]):
        cls = 1 if e == "every_minute" else 2
        own = schedmodel.due(e, case["period"], start.date(), end.date())
        want += [(x, cls, i) for x in own if start <= x <= end]
        legal += [(x, cls, i) for x in schedmodel.due(e, case["period"], start.date() - datetime.timedelta(5),
                                                      end.date() + datetime.timedelta(5)) if start <= x <= end]
    want.sort()
    fires = [e for e in res.trace if e["k"] == "fire"]
    got = [(vt.from_ns(e["s"]), 1 if case["tasks"][e["i"]] == "every_minute" else 2, e["i"]) for e in fires]
    show = lambda x: "%s task %d (%r)" % (x[0], x[2], case["tasks"][x[2]])
    window = "window %s .. %s" % (start, end)
    if res.status not in ("ok", "exit"):
        raise Violation("the replay run %s (%s)\n%s" % (res.describe(), window, res.output[-1500:]))
    for x in set(got) - set(legal):
        raise Violation("%s: fired although not due in the window: %s" % (window, show(x)))
    if len(set(got)) != len(got):
        raise Violation("%s: fired twice: %s" % (window, [show(x) for x in got if got.count(x) > 1][:2]))
    missing = [x for x in want if x not in set(got)]
    if missing:
        raise Violation("%s: never fired: %s" % (window, [show(x) for x in missing[:3]]))
    cross = [schedmodel.crosses_midnight(e, case["period"]) for e in case["tasks"]]
    for a, b in zip(got, got[1:]):
        if (a[0], a[1]) > (b[0], b[1]) or (a > b and not cross[a[2]] and not cross[b[2]]):
            raise Violation("%s: %s fired before %s" % (window, show(a), show(b)))
    if res.status == "exit" and res.code == 72 and fires:
        raise Violation("%s: the run did not end by itself after its last event" % window)
    if res.status == "exit" and res.code != 72:
        raise Violation("the replay run %s\n%s" % (res.describe(), res.output[-1500:]))
    edge = any(x[0] in (start, end) for x in want)
    return Outcome(bool(want), ["edge"] * edge + ["every_minute"] * ("every_minute" in case["tasks"])
                   + ["empty"] * (not want) + ["longer than a year"] * ((end - start).days > 365), {"case": case, "callbacks": len(got)})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
