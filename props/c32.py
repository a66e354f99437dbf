"""C32: the event loop carries out everything that is pushed to it, from wherever, in due order."""
import datetime
import os
import signal
import sys
import threading
import time
import traceback

from hypothesis import strategies as st

from harness import sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C32"
LEVEL = "exploration"
RULE = ("A case is a program for the event loop in virtual time: messages pushed for an instant and calls deferred by a delay, before the run, by callbacks, and from outside while the loop waits or a callback runs; callbacks that last, stop, fail, register exit checkers or signal callbacks; "
        "signals and stops from outside at an instant. Some cases instead push from several real threads. From the record of what was pushed and what ran: everything exactly once, on the loop's thread, never early, on time, by due time, priority and creation, until the loop is stopped, fails, has nothing left or an exit checker "
        "ends it. Non-trivial: at least four callbacks ran, one of them pushed by a callback or from outside.")
ASSUMPTIONS = ["Delays are whole milliseconds.", "Lateness is judged in virtual time only."]
QUICK = 250
THOROUGH = 15000

SLACK = 3          # ms
SIGS = [signal.SIGUSR1, signal.SIGUSR2]
times = mix(st.sampled_from([0, 0, 1, 2, 10, 1000]), st.integers(0, 50), st.integers(0, 5000), st.sampled_from([-5, -1000, 60000, 86400000, 40 * 86400000]))
act = mix(st.builds(lambda n: ["busy", n], st.sampled_from([1, 7, 100, 2500])), st.builds(lambda s, k: ["sig", s, k], st.integers(0, 1), st.integers(0, 9)))
rare = mix(st.just(["stop"]), st.just(["raise"]), st.builds(lambda x: ["checker", x], st.sampled_from([5, 500, 4000, 100000])))


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 7)) == 0:
        return {"threads": draw(st.lists(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 3)).map(list), min_size=1, max_size=30), min_size=2, max_size=5)), "kids": draw(st.integers(0, 2))}
    nodes = []
    for i in range(draw(st.integers(1, 14))):
        how = draw(st.sampled_from(["defer", "push", "push"]))
        parent = draw(mix(st.just("start"), st.just("start"), st.integers(0, 5000).map(lambda t: ["at", t]), st.integers(0, max(0, i - 1)) if i else st.just("start"), st.integers(0, max(0, i - 1)) if i else st.just("start")))
        acts = draw(st.lists(act, max_size=2))
        if draw(st.integers(0, 15)) == 0:
            acts.insert(draw(st.integers(0, len(acts))), draw(rare))
        nodes.append({"how": how, "t": draw(times) if how == "push" else max(0, draw(times)), "prio": draw(st.integers(-1, 2)) if how == "push" else 0, "parent": parent, "acts": acts})
    outside = draw(st.lists(mix(st.tuples(st.just("sig"), st.integers(0, 5000), st.integers(0, 1)), st.tuples(st.just("sig"), st.integers(0, 5000), st.integers(0, 1)), st.tuples(st.just("sig"), st.integers(0, 5000), st.integers(0, 1)), st.tuples(st.just("stop"), st.integers(0, 5000))).map(list), max_size=2,
                            unique_by=lambda o: o[1] // 50))
    return {"start": draw(st.sampled_from(["2024-02-28T23:59:58.000400", "2025-06-02T10:00:00.123000", "2023-12-31T23:59:59.999000"])), "nodes": nodes, "outside": outside, "checker": draw(st.sampled_from([None, None, None, 300, 10 ** 6]))}


def strategy(tier):
    return cases(tier)


def ms():
    return vt.now_ns() // 1000000


def virtual(case):
    from jqtrade.scheduler.loop import EventLoop
    from jqtrade.scheduler.message import Message
    sandbox.open_trace()
    vt.enable(sim.un(case["start"]))
    base = ms()
    loop = EventLoop()
    rec = sandbox.rec

    def push(i):
        n = case["nodes"][i]
        t0, t0ns = ms(), vt.now_ns()
        if n["how"] == "defer":
            loop.defer(n["t"], run, i, key="k%d" % i)
            lo, hi = t0 + n["t"], ms() + n["t"]
        else:
            loop.push_message(Message(base + n["t"], run, {"i": i, "key": "k%d" % i}, n["prio"]))
            lo = hi = base + n["t"]
        rec("push", i=i, lo=lo, hi=hi, prio=n["prio"], t=t0ns)

    def checker(limit):
        def ask(now, ts):
            rec("ask", limit=limit, now=now, ts=ts, t=ms())
            return ts - now > limit
        rec("checker", limit=limit, t=vt.now_ns())
        loop.register_exit_checker(ask)

    def on_signal(s, k):
        rec("sigreg", s=s, cb=k, t=vt.now_ns())
        loop.register_signal_callback(SIGS[s], lambda sig: rec("gotsig", s=SIGS.index(sig), cb=k, t=vt.now_ns()))

    def run(i, key):
        rec("run", i=i, key=key, t=vt.now_ns(), dt=sim.iso(loop.strategy_dt), main=threading.get_ident() == me)
        for j, n in enumerate(case["nodes"]):
            if n["parent"] == i:
                push(j)
        for a in case["nodes"][i]["acts"]:
            if a[0] == "busy":
                vt.advance(a[1] / 1000)
            elif a[0] == "sig":
                on_signal(a[1], a[2])
            elif a[0] == "checker":
                checker(a[1])
            elif a[0] == "stop":
                rec("stop", t=vt.now_ns())
                loop.stop()
            else:
                rec("raise", i=i, t=vt.now_ns())
                raise LookupError("failed %d" % i)
        rec("done", i=i, t=vt.now_ns())

    def stop():
        rec("stop", t=vt.now_ns())
        loop.stop()

    def send(s):
        rec("sent", s=s, t=vt.now_ns())
        os.kill(os.getpid(), SIGS[s])
    me = threading.get_ident()
    on_signal(0, 100)
    on_signal(1, 101)
    if case["checker"] is not None:
        checker(case["checker"])
    for i, n in enumerate(case["nodes"]):
        if n["parent"] == "start":
            push(i)
        elif isinstance(n["parent"], list):
            vt.at(sim.un(case["start"]) + datetime.timedelta(milliseconds=n["parent"][1]), lambda i=i: push(i))
    for o in case["outside"]:
        at = sim.un(case["start"]) + datetime.timedelta(milliseconds=o[1])
        vt.at(at, stop if o[0] == "stop" else lambda s=o[2]: send(s))
    if not any(n["parent"] == "start" for n in case["nodes"]):
        return None
    vt.at(sim.un(case["start"]) + datetime.timedelta(days=400), lambda: (rec("never", t=vt.now_ns()), os._exit(71)))
    rec("begin", t=vt.now_ns())
    try:
        loop.run()
        end = "return"
    except LookupError as e:
        end = str(e)
    rec("end", how=end, t=vt.now_ns())
    return end


def threaded(case):
    from jqtrade.scheduler.loop import EventLoop
    from jqtrade.scheduler.message import Message
    loop = EventLoop()
    me = threading.get_ident()
    ran, bad, pushed = [], [], []
    sys.setswitchinterval(1e-5)
    left = [len(case["threads"])]
    lock = threading.Lock()

    def body(t):
        for j, (delay, prio) in enumerate(case["threads"][t]):
            due = int(time.time() * 1000) + delay
            with lock:
                pushed.append((t, j))
            loop.push_message(Message(due, run, {"t": t, "j": j, "due": due}, prio))
            for k in range(case["kids"]):
                with lock:
                    pushed.append((t, j, k))
                loop.defer(k, run, t, j, due, k)
        with lock:
            left[0] -= 1

    def run(t, j, due, *k):
        if threading.get_ident() != me:
            bad.append("a callback ran on another thread")
        if not k and time.time() * 1000 < due:
            bad.append("a callback ran before its time")
        ran.append((t, j) + k)

    def keep():
        if left[0]:
            loop.defer(5, keep)
    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(case["threads"]))]
    loop.defer(0, lambda: [t.start() for t in threads])
    loop.defer(0, keep)
    loop.run()
    return {"bad": bad, "ran": sorted(ran, key=repr), "pushed": sorted(pushed, key=repr)}


def guarded(case):
    try:
        return threaded(case) if "threads" in case else virtual(case)
    except Exception:
        sys.stdout.write(traceback.format_exc())
        sys.stdout.flush()
        os._exit(3)


def judge(case, res):
    if res.status != "ok":
        raise Violation("the event loop: the process %s\n%s" % (res.describe(), res.output[-1500:]))
    if "threads" in case:
        v = res.value
        if v["bad"]:
            raise Violation("%s; threads %s" % (v["bad"][0], case["threads"]))
        if v["ran"] != v["pushed"]:
            lost = [x for x in v["pushed"] if x not in v["ran"]]
            twice = sorted(set(x for x in v["ran"] if v["ran"].count(x) > 1))
            raise Violation("several threads pushed to the loop: %s never ran, %s ran more than once" % (lost, twice))
        return Outcome(len(v["ran"]) >= 4, ["threads"], {"case": case, "ran": len(v["ran"])})
    if res.value is None:
        return Outcome(False, ["nothing to do"], None)
    tr = res.trace
    NS = 1000000
    pending, ran, checkers = {}, [], []
    ended = None            # why nothing may run any more
    last = None             # when the loop became free: begin of the run, or end of the last callback
    inside = None
    regs = {0: [], 1: []}
    sigs = []
    raised = None
    gap_end = None
    outside_pushed = 0
    for e in tr:
        k = e["k"]
        if k == "push":
            if e["i"] in pending or e["i"] in ran:
                raise Violation("harness: pushed twice")
            pending[e["i"]] = dict(e, seq=len(pending) + len(ran))
            if isinstance(case["nodes"][e["i"]]["parent"], list) or inside is not None:
                outside_pushed += 1
        elif k == "checker":
            checkers.append((e["limit"], e["t"]))
        elif k == "begin":
            last = e["t"]
            if pending and any(min(p["lo"] for p in pending.values()) - last // NS > l + SLACK for l, _ in checkers):
                ended = "an exit checker"
        elif k == "ask":
            if not pending or e["ts"] not in range(min(p["lo"] for p in pending.values()), min(p["hi"] for p in pending.values()) + 1):
                raise Violation("an exit checker was asked about the instant %d; pending are %s" % (e["ts"], pending))
            if abs(e["now"] - e["t"]) > 1:
                raise Violation("an exit checker was told that it is %d at %d" % (e["now"], e["t"]))
        elif k == "sigreg":
            regs[e["s"]].append(e)
        elif k == "sent":
            sigs.append(dict(e, busy=inside is not None))
        elif k == "gotsig":
            mine = [s for s in sigs if s["s"] == e["s"] and not s.get("got")]
            if not mine:
                raise Violation("a callback for signal %d ran without a signal" % e["s"])
            s = mine[0]
            s["got"] = True
            before = [r["cb"] for r in regs[e["s"]] if r["t"] <= s["t"]][-1:]
            after = [r["cb"] for r in regs[e["s"]] if r["t"] > s["t"]]
            if e["cb"] not in before + after:
                raise Violation("signal %d went to callback %s, registered are %s" % (e["s"], e["cb"], regs[e["s"]]))
            start = max(s["t"], last) if last is not None else s["t"]
            if e["t"] - start > SLACK * NS:
                raise Violation("the callback for signal %d ran %d ms late" % (e["s"], (e["t"] - start) // NS))
        elif k == "stop":
            ended = ended or "stop"
            gap_end = e["t"] if inside is None else None
        elif k == "raise":
            ended = raised = "failed %d" % e["i"]
            inside = None
            last = e["t"]
        elif k == "run":
            i = e["i"]
            if i not in pending:
                raise Violation("message %d ran %s" % (i, "twice" if i in ran else "without having been pushed"))
            if inside is not None:
                raise Violation("message %d ran inside message %d" % (i, inside))
            if ended:
                raise Violation("message %d ran although the loop had ended (%s)" % (i, ended))
            p = pending.pop(i)
            if e["key"] != "k%d" % i or not e["main"]:
                raise Violation("message %d ran with %s" % (i, e))
            if e["t"] < p["lo"] * NS:
                raise Violation("message %d, due at %d ms, ran at %d ns" % (i, p["lo"], e["t"]))
            due = max(p["hi"] * NS, p["t"], last)
            if e["t"] - due > SLACK * NS:
                raise Violation("message %d ran %.3f ms late" % (i, (e["t"] - due) / NS))
            if p["lo"] == p["hi"] and e["dt"] != sim.iso(vt.from_ns(p["lo"] * NS)):
                raise Violation("the strategy time inside message %d is %s, due was %s" % (i, e["dt"], sim.iso(vt.from_ns(p["lo"] * NS))))
            for q in pending.values():
                first = q["hi"] < p["lo"] or (q["lo"] == q["hi"] == p["lo"] == p["hi"] and (-q["prio"], q["seq"]) < (-p["prio"], p["seq"]))
                if first and e["t"] - q["t"] > SLACK * NS:
                    raise Violation("message %d ran before %d: (due, priority, creation) %s and %s" % (i, q["i"], (p["lo"], p["hi"], p["prio"], p["seq"]), (q["lo"], q["hi"], q["prio"], q["seq"])))
            ran.append(i)
            inside = i
        elif k == "done":
            inside = None
            last = e["t"]
            if pending and any(min(p["lo"] for p in pending.values()) - last // NS > l + SLACK for l, _ in checkers):
                ended = ended or "an exit checker"
        elif k == "end":
            if raised and e["how"] != raised:
                raise Violation("a callback raised %r, the loop ended with %r" % (raised, e["how"]))
            if not raised and e["how"] != "return":
                raise Violation("the loop ended with %r" % e["how"])
            if not ended and pending:
                first = min(p["hi"] for p in pending.values())
                if not any(first - last // NS > l - SLACK for l, _ in checkers):
                    raise Violation("the loop ended although %s were pending; exit checkers %s" % (sorted(pending), checkers))
            free = max(last, gap_end or 0)
            if e["t"] - free > SLACK * NS and (ended or not pending):
                raise Violation("the loop ended %.3f ms after it had nothing to do any more (%s)" % ((e["t"] - free) / NS, ended or "nothing pending"))
            for s in sigs:
                if not s.get("got") and e["t"] - max(s["t"], last) > SLACK * NS and not ended:
                    raise Violation("the signal sent at %d never reached its callback" % s["t"])
        elif k == "never":
            raise Violation("the loop does not end")
    labels = ["stop"] * (ended == "stop") + ["fails"] * bool(raised) + ["exit checker"] * (ended == "an exit checker") + ["signals"] * any(s.get("got") for s in sigs) + ["all done"] * (not pending)
    return Outcome(len(ran) >= 4 and outside_pushed > 0, labels, {"case": case, "ran": ran})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(guarded, (case,), d))
    finally:
        env.drop(d)
