"""C07: concurrent writers never damage or lose lines of the shared order file; a held lock is waited for."""
import datetime
import fcntl
import os
import random
import sys
import time

from hypothesis import strategies as st

from harness import agen, anxin, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C07"
LEVEL = "exploration"
RULE = ("Held-lock cases: one strategy places orders and cancellations under virtual time while another program holds the lock of the order or cancel file for generated "
        "intervals, creates the file, writes lines of its own, or slips in between any open, lock and write of the strategy; steps and results are compared with the lock's "
        "time table. Stress cases: two to six strategy processes and a lock holder write to one directory at once in real time. In both the file is read by an independent parser: "
        "one header first, every accepted order and every foreign line once and intact, nothing else. Non-trivial: an order met a held lock, another "
        "program's line was interleaved, or at least two processes wrote.")
ASSUMPTIONS = ["Other programs use the same advisory lock (flock).", "Interleavings of the stress cases are left to the kernel."]
QUICK = 160
THOROUGH = 3000


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        return {"mode": "stress", "procs": draw(st.integers(2, 6)), "orders": draw(st.integers(1, 25)), "cancels": draw(st.integers(0, 5)),
                "holder": draw(st.sampled_from([None, 1, 3])), "seed": draw(st.integers(0, 10 ** 6)), "foreign": draw(st.booleans()),
                "internal": draw(st.sampled_from([0.0005, 0.001, 0.003]))}
    internal, timeout = draw(st.sampled_from([[None, None], [0.05, 1], [0.01, 0.2], [0.5, 3], [0.25, 0.25], [0.1, 0], [1, 0.5], [0.3, 10]]))
    ops = draw(st.lists(mix(
        st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda i: ["cancel", i], st.integers(0, 9)),
        st.builds(lambda b: ["busy", b], st.sampled_from([0.01, 0.1, 1, 3, 7]))), min_size=1, max_size=8))
    holds = draw(st.lists(st.fixed_dictionaries({
        "file": st.sampled_from(["algoOrder", "algoOrder", "algoOrderStop"]),
        "from": mix(st.integers(-50, -1), st.integers(-50, 20000)), "len": mix(st.integers(1, 400), st.integers(1, 9000)),
        "lines": st.sampled_from([0, 0, 1, 2]), "shared": st.booleans()}), max_size=4))
    slip = draw(st.lists(st.tuples(st.sampled_from(["lock", "write", "written"]), st.integers(0, 8)), max_size=4))
    return {"mode": "held", "start": draw(agen.day_starts), "internal": internal, "timeout": timeout, "ops": ops, "holds": holds,
            "slip": [list(x) for x in slip], "preexisting": draw(st.sampled_from([None, "empty", "lines"]))}


def strategy(tier):
    return cases(tier)


def explicit_cases(tier):
    # every hook point for a file that does not exist yet and for one that does
    for op in ("lock", "write", "written"):
        for k in range(4):
            for pre in (None, "empty", "lines"):
                yield {"mode": "held", "start": "2024-02-28T10:00:00.500000", "internal": None, "timeout": None, "preexisting": pre,
                       "ops": [["order", {"code": "000001.XSHE", "amount": 100, "style": None}], ["order", {"code": "600000.XSHG", "amount": -200, "style": ["l", 9.5]}],
                               ["cancel", 0]], "holds": [], "slip": [[op, k]]}


class Other(object):
    """another program that follows the locking rule; its lines have recognisable ids"""

    def __init__(self, d, day):
        self.d, self.day = d, day
        self.n = 0
        self.pending = None

    def open(self, kind):
        return os.open(anxin.path(self.d, kind, self.day), os.O_RDWR | os.O_CREAT, 0o644)

    def line(self, kind):
        self.n += 1
        oid = "F%d" % self.n
        if kind == "algoOrder":
            return oid, "093000.000000,%s,UM0,9,000002.SZ,1,100,DMA,P6,0,0,0%s" % (oid, os.linesep)
        return oid, "093000.000000,%s%s" % (oid, os.linesep)

    def append(self, fd, kind):
        size = os.fstat(fd).st_size
        oid, text = self.line(kind)
        if size == 0:
            text = {"algoOrder": anxin.ORDER_HEADER, "algoOrderStop": anxin.CANCEL_HEADER}[kind] + os.linesep + text
        os.pwrite(fd, text.encode(), size)
        sandbox.rec("foreign", file=kind, id=oid, t=vt.now_ns())

    def try_lock(self, fd):
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            return True
        except BlockingIOError:
            return False


def held(case):
    start = sim.un(case["start"])
    day = start.date()
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d)
    other = Other(d, day)
    if case["preexisting"]:
        for kind in ("algoOrder", "algoOrderStop"):
            fd = other.open(kind)
            if case["preexisting"] == "lines":
                sandbox.open_trace()
                other.append(fd, kind)
            os.close(fd)
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "run", "sync_balance": False, "sync_order": False}
    if case["internal"] is not None:
        options.update(wait_lock_internal=case["internal"], wait_lock_time_out=case["timeout"])
    first = start.replace(microsecond=0) + datetime.timedelta(seconds=1)

    def arm(g, ctx):
        for h in case["holds"]:
            a = first + datetime.timedelta(milliseconds=h["from"])
            b = a + datetime.timedelta(milliseconds=h["len"])

            def take(h=h, b=b):
                fd = other.open(h["file"])
                if not other.try_lock(fd):
                    os.close(fd)
                    return
                sandbox.rec("hold", file=h["file"], t=vt.now_ns())

                def release():
                    for _ in range(h["lines"]):
                        other.append(fd, h["file"])
                    sandbox.rec("release", file=h["file"], t=vt.now_ns())
                    os.close(fd)
                vt.at(b, release)
            if a > vt.now():
                vt.at(a, take)
        count = {}
        pend = []

        def hook(op, fd):
            p = os.readlink("/proc/self/fd/%d" % fd)
            kind = "algoOrderStop" if "algoOrderStop" in p else "algoOrder" if "algoOrder_" in p else None
            if kind is None:
                return
            k = count[op] = count.get(op, -1) + 1
            if op == "written" and pend:                # the other program finishes what it began under its lock
                f2, size, text, oid, kd = pend.pop()
                os.pwrite(f2, text, size)
                sandbox.rec("foreign", file=kd, id=oid, t=vt.now_ns())
                os.close(f2)
            if [op, k] not in case["slip"]:
                return
            f2 = other.open(kind)
            if not other.try_lock(f2):
                os.close(f2)
                return
            sandbox.rec("slip", op=op)
            if op == "write":                           # it has the lock: reads the size now, writes later
                size = os.fstat(f2).st_size
                oid, text = other.line(kind)
                if size == 0:
                    text = {"algoOrder": anxin.ORDER_HEADER, "algoOrderStop": anxin.CANCEL_HEADER}[kind] + os.linesep + text
                pend.append((f2, size, text.encode(), oid, kind))
            else:
                other.append(f2, kind)
                os.close(f2)
        if case["slip"]:
            vt.hook_ops(d, hook)
    ids = []

    def do(op, g, ctx, k):
        t0 = vt.now_ns()
        if op[0] == "busy":
            vt.advance(op[1])
        elif op[0] == "order":
            args, kw = agen.order_args(g, op[1])
            r = g["order"](*args, **kw)
            sandbox.rec("placed", id=r, order=op[1], t0=t0, t1=vt.now_ns())
            if r:
                ids.append(r)
        elif ids:
            x = ids[op[1] % len(ids)]
            g["cancel_order"](x)
            sandbox.rec("canceled", id=x, t0=t0, t1=vt.now_ns())

    return run_steps(start, [[], case["ops"]], options, do, extra=arm, gap=120)


def state_at(tr, kind):
    """list of (from, to) the lock was held by the other program"""
    out, cur = [], None
    for e in tr:
        if e["k"] == "hold" and e["file"] == kind:
            cur = e["t"]
        elif e["k"] == "release" and e["file"] == kind and cur is not None:
            out.append((cur, e["t"]))
            cur = None
    if cur is not None:
        out.append((cur, 2 ** 62))
    return out


def forecast(spans, t0, internal, timeout):
    """'ok', 'fail' or None (too close to call)"""
    eps = int(0.02 * vt.NS)
    last = t0 + timeout
    cur = t0
    inside = [s for s in spans if s[0] <= t0 + eps and s[1] > t0 - eps]
    if not inside:
        if any(t0 - eps < s[0] < t0 + eps for s in spans):
            return None
        return "ok"
    # merge from t0 on
    end = max(s[1] for s in inside)
    for s in sorted(spans):
        if s[0] <= end and s[1] > end:
            end = s[1]
    if not any(s[0] <= t0 - eps and s[1] >= t0 + eps for s in inside):
        return None
    if end >= last + internal + eps:
        return "fail"
    nxt = min([s[0] for s in spans if s[0] > end] or [2 ** 62])
    if end + internal + eps <= last and nxt >= end + internal + eps:
        return "ok"
    return None


def explained(got, maybe):
    """got is the list of the cancellations that went through: all the certain ones and some of the others, in order"""
    states = {0}
    for x, sure in maybe:
        nxt = set() if sure else set(states)
        nxt.update(i + 1 for i in states if i < len(got) and got[i] == x)
        states = nxt
    return len(got) in states


def judge_files(d, day, want, cancels, foreign, ordered=True):
    for kind, header, reader, exp in (("algoOrder", anxin.ORDER_HEADER, anxin.read_orders, want),
                                      ("algoOrderStop", anxin.CANCEL_HEADER, anxin.read_cancels, cancels)):
        p = anxin.path(d, kind, day)
        allids = exp + foreign[kind]
        if not allids and os.path.exists(p) and os.path.getsize(p) == 0:
            continue
        rows, bad = reader(d, day)
        if bad:
            raise Violation("; ".join(bad))
        got = [r[1] for r in rows]
        if sorted(got) != sorted(allids):
            raise Violation("%s holds %s; accepted were %s and other programs wrote %s" % (kind, got, exp, foreign[kind]))
        if ordered and [x for x in got if x in set(exp)] != exp:
            raise Violation("%s holds the lines in the order %s, they were written in the order %s" % (kind, got, exp))


def judge_held(case, res, d):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = res.trace
    day = sim.un(case["start"]).date()
    internal = int((0.05 if case["internal"] is None else case["internal"]) * vt.NS)
    timeout = int((5 if case["timeout"] is None else case["timeout"]) * vt.NS)
    spans = {k: state_at(tr, k) for k in ("algoOrder", "algoOrderStop")}
    foreign = {k: [e["id"] for e in tr if e["k"] == "foreign" and e["file"] == k] for k in spans}
    rows, _ = anxin.read_cancels(os.path.join(d, "orders"), day)
    written_cancels = [r[1] for r in rows]
    want, maybe, met = [], [], 0
    for e in tr:
        if e["k"] not in ("placed", "canceled"):
            continue
        kind = "algoOrder" if e["k"] == "placed" else "algoOrderStop"
        f = forecast(spans[kind], e["t0"], internal, timeout)
        took = (e["t1"] - e["t0"]) / 1e9
        met += any(s[0] <= e["t0"] < s[1] for s in spans[kind])
        if took > (timeout + internal) / 1e9 + 0.5:
            raise Violation("%s took %.2f s, the lock time-out is %.2f s" % (e["k"], took, timeout / 1e9))
        if e["k"] == "placed":
            if e["id"]:
                want.append(e["id"])
            if f == "ok" and not e["id"]:
                raise Violation("an order failed although the lock became free in time (order at %s, lock held %s, time-out %s s)" % (
                    vt.from_ns(e["t0"]), [(str(vt.from_ns(a)), str(vt.from_ns(min(b, 4 * 10 ** 18)))) for a, b in spans[kind]], timeout / 1e9))
            if f == "fail" and e["id"]:
                raise Violation("an order was accepted although the lock was held all the time until its time-out")
            if not e["id"] and took < timeout / 1e9 - 0.001:
                raise Violation("an order gave up waiting for the lock after %.3f s, the time-out is %.2f s" % (took, timeout / 1e9))
        else:
            if f != "fail":
                maybe.append((e["id"], f == "ok"))
            if f == "fail" and took < timeout / 1e9 - 0.001:
                raise Violation("a cancellation gave up waiting for the lock after %.3f s, the time-out is %.2f s" % (took, timeout / 1e9))
    own = [x for x in written_cancels if x not in foreign["algoOrderStop"]]
    cancels = own if explained(own, maybe) else [x for x, sure in maybe if sure]
    judge_files(os.path.join(d, "orders"), day, want, cancels, foreign)
    nslip = sum(1 for e in tr if e["k"] == "slip")
    return Outcome(met > 0 or nslip > 0, ["held"] + ["met a held lock"] * bool(met) + ["slipped in"] * bool(nslip)
                   + ["order timed out"] * any(e["k"] == "placed" and not e["id"] for e in tr), {"case": case, "orders": len(want)})


# ------------------------------------------------------------------ stress
def strategy_proc(case, i, d, ready, go):
    rnd = random.Random(case["seed"] * 100 + i)
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "run", "sync_balance": False, "sync_order": False,
               "wait_lock_internal": case["internal"], "wait_lock_time_out": 60}

    def initialize(g, ctx):
        g["set_options"](**options)
        os.write(ready, b"x")
        told.append(1)
        os.read(go, 1)
        ids = []
        for k in range(case["orders"]):
            o = {"code": rnd.choice(agen.CODES), "amount": rnd.choice([100, -100, 12345])}
            r = g["order"](o["code"], o["amount"])
            sandbox.rec("placed", id=r, order=o, proc=i)
            if r:
                ids.append(r)
            if rnd.random() < 0.2:
                time.sleep(rnd.random() * 0.003)
        for k in range(case["cancels"]):
            if ids:
                x = rnd.choice(ids)
                g["cancel_order"](x)
                sandbox.rec("canceled", id=x, proc=i)
        sandbox.rec("done", proc=i)
        sys.exit(0)

    told = []
    sim.start_task(None, None, initialize, virtual=False, name="task%d" % i, code="vstrategy_%d.py" % i)
    if not told:
        os.write(ready, b"x")


def stress(case):
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d)
    sandbox.open_trace()
    sandbox.rec("day", day=datetime.date.today().isoformat())
    r_ready, w_ready = os.pipe()
    r_go, w_go = os.pipe()
    pids = []
    for i in range(case["procs"]):
        pid = os.fork()
        if pid == 0:
            try:
                strategy_proc(case, i, d, w_ready, r_go)
            finally:
                os._exit(0)
        pids.append(pid)
    got = 0
    while got < case["procs"]:
        x = os.read(r_ready, 16)
        got += len(x)
    os.write(w_go, b"g" * case["procs"])
    rnd = random.Random(case["seed"])
    other = Other(d, datetime.date.today())
    left = set(pids)
    while left:
        if case["holder"]:
            fd = other.open("algoOrder")
            if other.try_lock(fd):
                time.sleep(rnd.random() * case["holder"] / 1000.0)
                if case["foreign"] and other.n < 30:
                    other.append(fd, "algoOrder")
            os.close(fd)
        time.sleep(0.001)
        for p in list(left):
            if os.waitpid(p, os.WNOHANG)[0]:
                left.discard(p)
    sandbox.rec("day", day=datetime.date.today().isoformat())
    return True


def judge_stress(case, res, d):
    if res.status != "ok":
        raise Violation("a strategy process %s\n%s" % (res.describe(), res.output[-1500:]))
    tr = res.trace
    days = set(e["day"] for e in tr if e["k"] == "day")
    if len(days) != 1:
        return Outcome(False, ["midnight"])
    done = [e["proc"] for e in tr if e["k"] == "done"]
    if len(done) != case["procs"]:
        raise Violation("only the strategies %s came to their end\n%s" % (sorted(done), res.output[-2000:]))
    placed = [e for e in tr if e["k"] == "placed"]
    if any(not e["id"] for e in placed):
        raise Violation("an order failed although the lock was never held for long\n%s" % res.output[-2000:])
    foreign = {k: [e["id"] for e in tr if e["k"] == "foreign" and e["file"] == k] for k in ("algoOrder", "algoOrderStop")}
    judge_files(os.path.join(d, "orders"), datetime.date.fromisoformat(days.pop()), [e["id"] for e in placed],
                [e["id"] for e in tr if e["k"] == "canceled"], foreign, ordered=False)
    return Outcome(True, ["stress"] + ["stress with holder"] * bool(case["holder"]), {"case": case, "orders": len(placed)})


def run(case, env):
    d = env.new_dir()
    try:
        if case["mode"] == "held":
            return judge_held(case, sandbox.run_case(held, (case,), d), d)
        return judge_stress(case, sandbox.run_case(stress, (case,), d), d)
    finally:
        env.drop(d)
