"""C02: callbacks never overlap and run in schedule order."""
import datetime

from hypothesis import strategies as st

from harness import gate, gen, sandbox, schedmodel, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C02"
LEVEL = "exploration"
RULE = ("A case is a set of tasks whose due times often coincide, an account synchronisation schedule that coincides with them and callback "
        "durations that make tasks queue up; the real process runs it under virtual time and the order of begin and end marks is "
        "compared with (due time, class, registration order). Non-trivial: at least two callbacks of different tasks "
        "or of a task and a synchronisation had the same due time, or a callback was started late.")
ASSUMPTIONS = ["Ties are judged between tasks whose offset does not cross midnight."]
QUICK = 250
THOROUGH = 2500

POOL = ["09:30:00", "09:30", "open", "open+0m", "open+0s", "09:31:00", "open+1m", "open+60s", "before_open", "open-30m", "09:00:00",
        "close", "15:00:00", "close+0h", "after_close", "close+30m", "15:30:00", "11:30:00", "11:30", "13:00:00",
        "open+1h", "10:30", "close-10m", "14:50:00", "14:50", "every_minute", "every_minute"]


@st.composite
def cases(draw, tier):
    d = draw(gen.dates)
    t = draw(st.sampled_from(["09:29:00", "08:59:00", "11:29:10", "14:49:00", "10:29:58", "14:58:30", "00:00:00", "15:29:00"]))
    tasks = draw(st.lists(mix(st.sampled_from(POOL), gen.exprs(3)), min_size=1, max_size=7))
    sync = draw(mix(st.none(), st.fixed_dictionaries({
        "internal": st.sampled_from([30, 60, 1800, 300]),
        "period": st.sampled_from([[["09:30:00", "09:35:00"]], [["09:00:00", "11:30:00"], ["14:50:00", "15:30:00"]],
                                   [["11:29:00", "11:31:00"]], [["14:49:00", "15:00:00"]]]),
        "balance": st.booleans(), "orders": st.booleans()})))
    busy = draw(st.lists(st.tuples(st.integers(0, 25), mix(st.integers(1, 400), st.sampled_from(
        [59, 60, 61, 3600, 7200, 86400]))), max_size=4))
    big = "every_minute" in tasks or sync
    return {"start": "%sT%s.500000" % (d.isoformat(), t), "hours": draw(st.integers(1, 8 if big else 60)),
            "tasks": tasks, "sync": sync, "busy": [list(b) for b in busy],
            "jitter_ms": draw(st.sampled_from([0, 0, 20, 2000]))}


def strategy(tier):
    return cases(tier)


def simulate(case):
    import threading
    start = sim.un(case["start"])
    horizon = start + datetime.timedelta(hours=case["hours"])
    book = gate.install()
    busy = dict((i, s) for i, s in case["busy"])
    n = [0]

    def initialize(g, ctx):
        opts = {"account_no": "1", "runtime_dir": "run", "sync_balance": False, "sync_order": False}
        sc = case["sync"]
        if sc:
            opts.update(sync_balance=sc["balance"], sync_order=sc["orders"], sync_internal=sc["internal"],
                        sync_period=[tuple(p) for p in sc["period"]])
        g["set_options"](**opts)
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](g["f%d" % i], e)
        sandbox.rec("ready", t=vt.now_ns())

    def fire(i, g, ctx):
        t = vt.now_ns()
        k = n[0]
        n[0] += 1
        s = vt.to_ns(ctx.strategy_dt)
        c = ctx.current_dt
        sandbox.rec("begin", i=i, t=t, s=s, c=vt.to_ns(c), th=threading.get_ident() == threading.main_thread().ident)
        if busy.get(k):
            vt.advance(busy[k])
        s2 = vt.to_ns(ctx.strategy_dt)
        sandbox.rec("stop", i=i, t=vt.now_ns(), s=s2)

    def before():
        if case["jitter_ms"]:
            vt.jitter(case["jitter_ms"] / 1000.0)

    return sim.start_task(start, horizon, initialize, fire, nfuncs=len(case["tasks"]), before=before)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = res.trace
    seq, open_ = [], None
    seen_ready = False
    for e in tr:
        k = e["k"]
        if k == "ready":
            seen_ready = True
        elif k == "begin":
            if open_ is not None:
                raise Violation("callback of task %d began while that of task %d was running" % (e["i"], open_["i"]))
            open_ = e
            if not e["th"]:
                raise Violation("a callback ran outside the main thread")
            if e["c"] < e["s"]:
                raise Violation("current_dt %s is earlier than strategy_dt %s" % (vt.from_ns(e["c"]), vt.from_ns(e["s"])))
            if abs(e["c"] - e["t"]) > vt.NS:
                raise Violation("current_dt %s is not the current time %s" % (vt.from_ns(e["c"]), vt.from_ns(e["t"])))
            cls = 1 if case["tasks"][e["i"]] == "every_minute" else 2
            seq.append((e["s"], cls, e["i"], e["t"]))
        elif k == "stop":
            if open_ is None or open_["i"] != e["i"]:
                raise Violation("callback ends out of place: %s" % e)
            if e["s"] != open_["s"]:
                raise Violation("strategy_dt changed while a callback was running")
            open_ = None
        elif k == "sync" and seen_ready:
            if open_ is not None:
                raise Violation("a background synchronisation ran inside the callback of task %d" % open_["i"])
            if e["s"] is not None:
                seq.append((e["s"], 0, -1, e["t"]))
    cross = [schedmodel.crosses_midnight(e) for e in case["tasks"]]
    names = lambda x: "synchronisation" if x[1] == 0 else "task %d (%r)" % (x[2], case["tasks"][x[2]])
    ties = late = 0
    for a, b in zip(seq, seq[1:]):
        if a[0] > b[0]:
            raise Violation("%s due %s ran before %s due %s" % (names(a), vt.from_ns(a[0]), names(b), vt.from_ns(b[0])))
        if a[0] == b[0] and a[2] != b[2]:
            ties += 1
            if a[1] > b[1]:
                raise Violation("at %s %s ran before %s" % (vt.from_ns(a[0]), names(a), names(b)))
            if a[1] == b[1] and a[2] > b[2] and not (a[2] >= 0 and cross[a[2]] or b[2] >= 0 and cross[b[2]]):
                raise Violation("at %s %s ran before %s, which was registered earlier" % (
                    vt.from_ns(a[0]), names(a), names(b)))
        late += b[3] - b[0] > vt.NS
    # strategy_dt must be a time the task is due at
    for s, cls, i, t in seq:
        if cls and s > t:
            raise Violation("strategy_dt %s is later than the instant the callback ran, %s" % (vt.from_ns(s), vt.from_ns(t)))
        if cls:
            off = (vt.from_ns(s) - datetime.datetime.combine(vt.from_ns(s).date(), datetime.time())).total_seconds()
            if not any((off - o) % 86400 == 0 for o in schedmodel.offsets(case["tasks"][i])):
                raise Violation("strategy_dt %s is no due time of task %r" % (vt.from_ns(s), case["tasks"][i]))
    # and nothing due in between may have been skipped or left behind: C01 decides that
    return Outcome(ties > 0 or late > 0, ["ties"] * (ties > 0) + ["late"] * (late > 0) + ["sync"] * bool(case["sync"]),
                   {"case": case, "callbacks": len(seq), "ties": ties, "late": late})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
