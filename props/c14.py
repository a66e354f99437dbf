"""C14: the account is synchronised in the background at the configured pace, every day."""
import datetime

from hypothesis import strategies as st

from harness import gate, gen, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C14"
LEVEL = "exploration"
RULE = ("A case is an interval, a list of periods or none, the two switches, a start instant (biased to the end of a day and the borders of periods), tasks beside it and a run of up to a few days; a recording trade gate notes every "
        "synchronisation. Gaps within a day and a period must be the interval, nothing may lie outside the periods, a period must begin with one and end with one if it is due then, every day. "
        "Non-trivial: at least two background synchronisations on the second or a later day.")
ASSUMPTIONS = ["Intervals of one second or more, to a resolution of one second.", "The phase of the interval is free, and may start anew at midnight and with each period."]
QUICK = 110
THOROUGH = 1500

DAY = datetime.timedelta(days=1)


@st.composite
def cases(draw, tier):
    days = draw(st.sampled_from([2, 1, 2, 2, 3] if tier == "quick" else [1, 2, 3, 5, 20]))
    per = None
    if draw(st.booleans()):
        per = draw(gen.market_periods())
        if per and len({tuple(p) for p in per}) != len(per):
            per = None
    low = 60 if not per else 20
    iv = draw(mix(st.sampled_from([60, 61, 3600, 7000, 86400 // 7, 900.5, 137.25, 43199.0, 600]), st.integers(low, 20000), st.integers(low * 4, 40000).map(lambda n: n / 4.0)))
    total = days * 86400 if not per else days * sum(sec(b) - sec(a) + 60 for a, b in per)
    if draw(st.integers(0, 2)) == 0:
        iv = draw(st.sampled_from([1, 1.0, 2, 2.5, 5, 7]))
    most = 1500.0 if tier == "quick" else 20000.0
    if total / iv > most:
        days = max(1, min(days, int(most * iv / (total / days))))
        if days * 86400 / iv > most and not per:
            days, iv = (2, max(iv, 60)) if draw(st.booleans()) else (1, iv)
    start = sim.un(draw(gen.starts()))
    if draw(st.integers(0, 2)) == 0:
        border = draw(st.sampled_from([23 * 3600 + 3595, 86398, 86399, 86390, 1, 0] + [sec(x) for p in per or [] for x in p]))
        start = datetime.datetime.combine(start.date(), datetime.time()) + datetime.timedelta(seconds=max(0, border - draw(st.sampled_from([0, 1, 2, 30]))), microseconds=500000)
    edge = None
    if not per and draw(st.integers(0, 3)) == 0:         # over midnight at a short interval
        days, iv = 2, draw(mix(st.sampled_from([1, 2, 5, 7, 60, 90, 900, 1800.0]), st.integers(1, 600)))
        start = datetime.datetime.combine(start.date(), datetime.time()) + datetime.timedelta(seconds=86399 - draw(st.integers(0, min(86000, int(300 * iv)))), microseconds=500000)
        edge = draw(st.integers(1, min(86399, int(300 * iv))))
    b = draw(st.booleans())
    return {"start": sim.iso(start), "days": days, "interval": iv, "period": per, "balance": b, "order": draw(st.booleans()) or not b if draw(st.integers(0, 7)) else False,
            "task": draw(st.sampled_from([None, None, "09:31", "every_minute", "00:00:00"])), "fail": draw(st.sampled_from([None, None, "sync_balance", "sync_orders"])), "from": draw(st.sampled_from(["option", "option", "config"])),
            "end": edge if edge else draw(st.integers(1, 86399)) if days > 1 or iv >= 60 else draw(st.integers(1, int(most * iv)))}


def strategy(tier):
    return cases(tier)


def sec(hms):
    h, m, s = hms.split(":")
    return int(h) * 3600 + int(m) * 60 + int(s)


def horizon_of(case):
    start = sim.un(case["start"])
    return datetime.datetime.combine(start.date() + (case["days"] - 1) * DAY, datetime.time()) + datetime.timedelta(seconds=case["end"], milliseconds=700) \
        if case["days"] > 1 else start + datetime.timedelta(seconds=case["end"])


def simulate(case):
    start = sim.un(case["start"])
    st_ = {}

    def before():
        b = gate.install()
        st_["b"] = b
        if case["fail"]:
            b.fail[case["fail"]] = RuntimeError("down")
        if case["from"] == "config":
            from jqtrade.account.config import get_config
            c = get_config()
            c.SYNC_INTERNAL = case["interval"]
            c.SYNC_PERIOD = periods()
            c.SYNC_BALANCE = case["balance"]
            c.SYNC_ORDER = case["order"]

    def periods():
        return [(datetime.time(*map(int, a.split(":"))), datetime.time(*map(int, b.split(":")))) for a, b in case["period"] or []]

    def initialize(g, ctx):
        o = {"account_no": "1", "runtime_dir": "run"}
        if case["from"] == "option":
            o.update(sync_internal=case["interval"], sync_balance=case["balance"], sync_order=case["order"])
            if case["period"]:
                o["sync_period"] = periods()
        g["set_options"](**o)
        if case["task"]:
            g["run_daily"](g["f0"], case["task"])
        sandbox.rec("ready", t=vt.now_ns())

    return sim.start_task(start, horizon_of(case), initialize, None, nfuncs=1, before=before)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    start, end, iv = sim.un(case["start"]), horizon_of(case), float(case["interval"])
    tol = 1.001 if iv != int(iv) else 0.01
    nt = False
    if not any(e["k"] == "ready" for e in res.trace):
        raise Violation("the strategy was not initialised\n%s" % res.output[-1500:])
    for what, on in (("balance", case["balance"]), ("orders", case["order"])):
        ts = [vt.from_ns(e["t"]) for e in res.trace if e["k"] == "sync" and e["what"] == what]
        if not on:
            if ts:
                raise Violation("%s is switched off but was synchronised at %s" % (what, ts[:3]))
            continue
        if not ts or (ts[0] - start).total_seconds() > 1:
            raise Violation("%s was not synchronised at start-up (%s); synchronisations: %s" % (what, start, ts[:3]))
        rest = ts[1:]
        label = "%s every %s s in %s, started at %s: " % (what, case["interval"], case["period"] or "the whole day", start)
        days = {}
        for t in rest:
            days.setdefault(t.date(), []).append(t)
        d = start.date()
        while d <= end.date():
            base = datetime.datetime.combine(d, datetime.time())
            if case["period"]:
                wins = [(base + datetime.timedelta(seconds=sec(a)), base + datetime.timedelta(seconds=sec(b))) for a, b in case["period"]]
            else:
                wins = [(base, base + datetime.timedelta(seconds=86399))]
            mine = days.get(d, [])
            inside = 0
            for a, b in wins:
                got = [t for t in mine if a <= t <= b + datetime.timedelta(seconds=tol)]
                inside += len(got)
                for x, y in zip(got, got[1:]):
                    gap = (y - x).total_seconds()
                    if not iv - tol <= gap <= iv + tol:
                        raise Violation(label + "%.3f s between the synchronisations of %s and %s" % (gap, x, y))
                if len(got) > 1 and abs((got[-1] - got[0]).total_seconds() - iv * (len(got) - 1)) > tol:
                    raise Violation(label + "%d synchronisations from %s to %s" % (len(got), got[0], got[-1]))
                lo, hi = max(a, start), min(b, end)
                if lo > hi:
                    continue
                # the first one: at the beginning of the period, or one interval at most into the day or after the start
                if a >= start:
                    limit = a + datetime.timedelta(seconds=tol if case["period"] else iv + tol)
                else:
                    limit = start + datetime.timedelta(seconds=iv + tol)
                if limit <= hi and not (got and got[0] <= limit):
                    raise Violation(label + "nothing between %s and %s, the next one is at %s" % (lo, limit, got[:1]))
                if got and (hi - got[-1]).total_seconds() > iv + tol:
                    raise Violation(label + "nothing between %s and %s" % (got[-1], hi))
                if got and iv == int(iv) and b < end - datetime.timedelta(seconds=1) and (b - got[-1]).total_seconds() > iv - 0.01:
                    raise Violation(label + "the last one before %s is at %s" % (b, got[-1]))
            if inside != len(mine):
                out = [t for t in mine if not any(a <= t <= b + datetime.timedelta(seconds=tol) for a, b in wins)]
                raise Violation(label + "a synchronisation outside of it at %s" % out[0])
            nt |= d > start.date() and len(mine) >= 2
            d += DAY
    return Outcome(nt, ["periods"] * bool(case["period"]) + ["failing gate"] * bool(case["fail"]) + [case["from"]], {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
