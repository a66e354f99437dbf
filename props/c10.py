"""C10: no crash and no full disk makes the strategy forget an order it sent."""
import datetime
import errno
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C10"
LEVEL = "fault_enumeration"
RULE = ("A case is a history of orders, cancellations, broker reports and synchronisations, run by one to three strategy processes of a day one after the other, with a fault in all but the last: "
        "a process death at the k-th file operation (also after a part of a write), or the k-th one (and possibly all later ones) failing with ENOSPC or EIO. Every k of three fixed histories is enumerated, other "
        "histories and k are generated. The last process runs without fault: after its first synchronisation it must know every order whose line is in the order file, as it was placed and with the broker's last "
        "state. In other cases a second strategy with the same directories places an order or synchronises before or after the k-th write of the first one; both are restarted and must know exactly their own orders. Non-trivial: a fault was hit and an order's line was in the order file before the last process started, or the second strategy placed an order in between.")
ASSUMPTIONS = ["A crash is the death of the process; power loss without fsync is not covered.", "Writes to the order file itself are torn by errors, not by crashes: "
               "the kernel does not stop a small write half-way.", "After EIO nothing of the write is in the file."]
QUICK = 90
THOROUGH = 5000

NEW = {"status": "new", "filled_amount": 0, "canceled_amount": 0, "avg_price": None, "deal_balance": 0, "err_msg": ""}


ops = mix(
    st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()),
    st.builds(lambda i: ["cancel", i], st.integers(0, 9)), st.just(["sync"]), st.just(["sync"]),
    st.builds(lambda i, s, f, t: ["report", i, s, f, t], st.integers(0, 9), st.sampled_from(list("01234578")), st.integers(0, 1000), st.sampled_from(["", "撤单", "x"])),
    st.builds(lambda i, t: ["reject", i, t], st.integers(0, 9), st.sampled_from(["资金不足", "no"])))


@st.composite
def faults(draw, n):
    kind = draw(st.sampled_from(["crash", "crash", "crash", "ENOSPC", "EIO"]))
    where = draw(st.sampled_from(["top", "top/run", "top/orders"]))
    k = draw(st.integers(1, 6 * n + 2 if where == "top" else 3 * n + 1))
    if kind == "EIO":
        pct = 0
    elif kind == "crash" and where != "top/run":
        pct = draw(st.sampled_from([0, 100]))
    else:
        pct = draw(st.sampled_from([0, 100, 50, 1, 99]))
    return {"kind": kind, "k": k, "pct": pct if kind == "crash" or pct < 100 else 99, "where": where, "repeat": kind != "crash" and draw(st.booleans())}


@st.composite
def cases(draw, tier):
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        seg = draw(st.lists(st.lists(ops, max_size=4), min_size=1, max_size=4))
        seg[0] = [["order", draw(agen.orders())]] + seg[0]
        if draw(st.integers(0, 11)) == 0:        # a list of orders beyond one buffer of the file layer
            seg[0] = [["order", draw(agen.orders())] for _ in range(2)] * draw(st.sampled_from([10, 40])) + seg[0]
        n = sum(o[0] != "report" for s in seg for o in s)
        runs.append({"steps": seg, "fault": draw(faults(n))})
    return {"start": draw(agen.day_starts), "runs": runs, "sync_order": draw(st.booleans()), "between": draw(st.lists(st.tuples(
        st.integers(0, 9), st.sampled_from(list("01234578")), st.integers(0, 1000)), max_size=3).map(lambda l: [list(x) for x in l])),
        "last_gap": draw(st.integers(0, 1))}


@st.composite
def pairs(draw):
    a = draw(st.lists(mix(st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda i: ["cancel", i], st.integers(0, 9)), st.just(["sync"])), min_size=1, max_size=6))
    return {"pair": [["order", draw(agen.orders())]] + a, "start": draw(agen.day_starts), "when": draw(st.dictionaries(st.integers(0, 4 * len(a) + 4), st.sampled_from(["order", "order", "sync"]), min_size=1, max_size=6).map(lambda d: [list(x) for x in sorted(d.items())])),
            "account": draw(st.sampled_from(["1", "1", "2"])), "names": draw(st.sampled_from([["alpha", "beta"], ["beta", "alpha"], ["demo", "demo1"], ["demo1", "demo"], ["a.b", "a"], ["a", "a_b"]]))}


def strategy(tier):
    return mix(*[cases(tier)] * 5 + [pairs()])


FIXED = [
    [[["order", {"code": "000001.XSHE", "amount": 100, "style": None}], ["order", {"code": "600000.XSHG", "amount": -300, "style": ["l", 9.87]}], ["sync"]]],
    [[["order", {"code": "300750.XSHE", "amount": 500, "style": ["l", 101.5]}], ["report", 0, "1", 200, ""], ["sync"]],
     [["order", {"code": "000001.XSHE", "amount": -100, "style": ["m", 11.5]}], ["reject", 1, "no"], ["sync"], ["cancel", 0]]],
    [[["sync"], ["order", {"code": "000001.XSHE", "amount": 100, "style": ["l", 1]}], ["cancel", 0], ["order", {"code": "000001.XSHE", "amount": 100, "style": ["l", 1]}]],
     [["report", 1, "2", 100, ""]], [["sync"], ["order", {"code": "600000.XSHG", "amount": 100, "style": None}]]],
]


def explicit_cases(tier):
    yield from two_strategies(tier)
    for steps in FIXED:
        for k in range(1, 24):
            for kind, pct, where in (("crash", 0, "top"), ("crash", 100, "top"), ("ENOSPC", 0, "top"), ("ENOSPC", 40, "top"), ("EIO", 0, "top")):
                yield {"start": "2024-02-28T09:59:59.500000", "sync_order": False, "between": [[0, "1", 50]], "last_gap": 0,
                       "runs": [{"steps": steps, "fault": {"kind": kind, "k": k, "pct": pct, "where": where, "repeat": k % 2 == 0 and kind != "crash"}}]}
        for k in range(1, 12):
            for pct in (1, 50, 99):
                yield {"start": "2024-02-28T09:59:59.500000", "sync_order": False, "between": [], "last_gap": 0,
                       "runs": [{"steps": steps, "fault": {"kind": "crash", "k": k, "pct": pct, "where": "top/run", "repeat": False}}]}


def two_strategies(tier):
    order = ["order", {"code": "000001.XSHE", "amount": 100, "style": None}]
    for k in range(8):
        for op in ("order", "sync"):
            yield {"pair": [order, ["sync"], order], "start": "2024-02-28T09:59:59.500000", "when": [[k, op]], "account": "1", "names": ["alpha", "beta"]}


def view(g):
    return gate.view_orders(g)


def report(d, day, i, status, filled, text, kind="report"):
    """the broker reports about the i-th order of the order file"""
    vt.pause(True)
    try:
        ids = [r[1] for r in anxin.read_orders(d, day)[0]]
        if not ids:
            return
        oid = ids[i % len(ids)]
        if kind == "reject":
            anxin.write(anxin.path(d, "execResult", day), anxin.result_line(oid, err=text) + "\n", "ab")
            sandbox.rec("state", id=oid, set={"status": "rejected", "err_msg": text})
        else:
            anxin.write(anxin.path(d, "orderUpdate", day), anxin.update_line(day, oid, status=status, filled=filled, avg=1.5, amt=filled * 1.5, cancel=3, text=text) + "\n", "ab")
            sandbox.rec("state", id=oid, upd=True, set={"status": anxin.STATUS[status], "err_msg": text, "filled_amount": filled, "canceled_amount": 3, "avg_price": 1.5,
                                                        "deal_balance": round(filled * 1.5, 4)})
    finally:
        vt.pause(False)


def simulate(case, n):
    """the n-th process; the one after those of the case is the last, without fault"""
    start = sim.un(case["start"]) + datetime.timedelta(minutes=15 * n)
    day = start.date()
    top = os.path.join(os.getcwd(), "top")
    d = os.path.join(top, "orders")
    last = n == len(case["runs"])
    if n == 0:
        os.makedirs(d)
        os.makedirs(os.path.join(top, "run"))
        for kind in ("execResult", "orderUpdate"):
            anxin.write(anxin.path(d, kind, day), "")
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "top/run", "sync_balance": False, "sync_order": case["sync_order"], "sync_internal": 3600}

    def do(op, g, ctx, k):
        kind, t0 = op[0], vt.now_ns()
        if kind == "order":
            args, kw = agen.order_args(g, op[1])
            sandbox.rec("try", o=op[1], t0=t0)
            r = g["order"](*args, **kw)
            vt.pause(True)
            rows = [x[1] for x in anxin.read_orders(d, day)[0]]
            vt.pause(False)
            sandbox.rec("placed", id=r, o=op[1], t0=t0, t1=vt.now_ns(), lines=rows)
        elif kind == "cancel":
            known = sorted(g["get_orders"]())
            if known:
                g["cancel_order"](known[op[1] % len(known)])
        elif kind == "sync":
            g["sync_orders"]()
        elif kind in ("report", "reject"):
            report(d, day, op[1], op[2], op[3] if kind == "report" else 0, op[4] if kind == "report" else op[2], kind)
        elif kind == "final":
            g["sync_orders"]()
            sandbox.rec("final", view=view(g), rows=anxin.read_orders(d, day), at=vt.now_ns())
            for oid in sorted(g["get_orders"]()):
                g["cancel_order"](oid)
            sandbox.rec("cancels", rows=[r[1] for r in anxin.read_cancels(d, day)[0]])

    if last:
        sandbox.open_trace()
        for i, s, f in case["between"]:
            report(d, day, i, s, f, "")
        return run_steps(start, [[]] + [[]] * case["last_gap"] + [[["final"]]], options, do)
    f = case["runs"][n]["fault"]
    prefix = os.path.join(os.getcwd(), f["where"])

    def arm():
        if f["kind"] == "crash":
            vt.crash_at(prefix, f["k"], f["pct"])
        else:
            vt.fail_at(prefix, f["k"], getattr(errno, f["kind"]), f["pct"], f["repeat"])

    r = run_steps(start, [[]] + case["runs"][n]["steps"], options, do, before=arm)
    r["hits"] = vt.hits()
    return r


def judge(case, results):
    hit = False
    for n, res in enumerate(results):
        if n == len(case["runs"]):
            break
        f = case["runs"][n]["fault"]
        if res.status == "exit" and res.code == 77:
            hit = True
            continue
        if res.status != "ok" or res.value["end"] not in ("return", "exception"):
            raise Violation("process %d (fault %s) %s, end %s\n%s" % (n, f, res.describe(), res.value, res.output[-1500:]))
        if res.value["end"] == "exception" and not res.value["hits"]:
            raise Violation("process %d ended with %s\n%s" % (n, res.value, res.output[-1500:]))
        hit = hit or res.value["hits"]
    res = results[-1]
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the restarted process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = res.trace
    tries = [e for e in tr if e["k"] == "try"]
    placed = [e for e in tr if e["k"] == "placed"]
    final = [e for e in tr if e["k"] == "final"]
    if not final:
        raise Violation("the restarted strategy did not get to its callbacks\n%s" % res.output[-1500:])
    final = final[0]
    rows, bad = final["rows"]
    for e in placed:
        if e["id"] is not None and e["id"] not in e["lines"]:
            raise Violation("order %s was reported as placed with id %s, the order file has the orders %s" % (e["o"], e["id"], e["lines"]))
    bad = [b for b in bad if "is empty" not in b]
    if bad:
        raise Violation("the order file is damaged: %s" % bad)
    ids = [r[1] for r in rows]
    if len(set(ids)) != len(ids):
        raise Violation("an order is in the order file twice: %s" % ids)
    ok = {e["id"]: e for e in placed if e["id"] is not None}
    for oid in ok:
        if oid not in ids:
            raise Violation("the successful order %s (id %s) is not in the order file" % (ok[oid]["o"], oid))
    got = final["view"]
    # a line of which the strategy never got the result: of the process that died while placing it
    open_tries = [e for i, e in enumerate(tries) if not any(p["t0"] == e["t0"] for p in placed)]
    fails = [e for e in placed if e["id"] is None]
    for r in rows:
        oid = r[1]
        e = ok.get(oid)
        fields = anxin.order_fields(r)
        if e is None:
            cand = [x for x in open_tries if anxin.expect_order(oid, dict(x["o"], price=agen.limit_price(x["o"]))) == fields]
            if not cand:
                raise Violation("the order file has the line %s, no order with it was successful (unfinished: %s, failed: %s)" % (r, [x["o"] for x in open_tries], [x["o"] for x in fails]))
            es = cand
        else:
            es = [e]
        if oid not in got:
            raise Violation("order %s of the order file (%s) is not known after the restart; known: %s\n%s" % (oid, r, sorted(got), res.output[-1500:]))
        problems = []
        for e in es:
            want = dict(NEW)
            upd = {}
            for s in tr:
                if s["k"] == "state" and s["id"] == oid and "upd" not in s:
                    upd.update(s["set"])
            both = bool(upd)
            for s in tr:
                if s["k"] == "state" and s["id"] == oid and "upd" in s:
                    if upd and both:
                        both = "both"
                    upd.update(s["set"])
            want.update(upd)
            o = e["o"]
            want.update({"order_id": oid, "code": o["code"], "amount": abs(o["amount"]), "side": "long", "action": "open" if o["amount"] > 0 else "close",
                         "style": "limit" if agen.limit_price(o) is not None else "market", "order_price": agen.style_price(o), "style_price": agen.style_price(o)})
            v = got[oid]
            bad_keys = [k for k in want if v[k] != want[k] and not (both == "both" and k in ("status", "err_msg"))]
            t = v["create_time"]
            tns = vt.to_ns(datetime.datetime.fromisoformat(t)) if t else None
            if not bad_keys and not (tns and e["t0"] - 2000 <= tns <= e.get("t1", e["t0"] + 10 * vt.NS)):
                bad_keys = ["create_time"]
            problems.append({k: (v[k], want.get(k)) for k in bad_keys})
        if all(problems):
            raise Violation("order %s is wrong after the restart (shown, expected): %s\n%s" % (r, problems, res.output[-800:]))
    attempted = [(x["o"]["code"], abs(x["o"]["amount"])) for x in open_tries + fails]
    for oid in got:
        if oid not in ids and (got[oid]["code"], got[oid]["amount"]) not in attempted:
            raise Violation("after the restart an order is known that was never placed: %s" % got[oid])
    c = [e for e in tr if e["k"] == "cancels"]
    if not c or not set(ids) <= set(c[0]["rows"]):
        raise Violation("not every recovered order %s could be cancelled: %s" % (ids, c))
    nt = bool(hit and ids)
    kinds = [r["fault"]["kind"] for r in case["runs"]]
    return Outcome(nt, (["hit"] if hit else []) + kinds + ["order of a dying process recovered"] * any(i not in ok for i in ids), {"case": case, "orders recovered": len(ids)})


# ------------------------------------------------------------------ two strategies that share their directories
def options_of(top, account="1"):
    return {"account_no": account, "order_dir": os.path.join(top, "orders"), "runtime_dir": os.path.join(top, "run"), "sync_balance": False, "sync_order": False}


def operate(op, g, who, ids):
    if op[0] == "order":
        args, kw = agen.order_args(g, op[1])
        r = g["order"](*args, **kw)
        sandbox.rec("pplaced", who=who, id=r, o=op[1])
        ids += [r] if r else []
    elif op[0] == "cancel" and ids:
        g["cancel_order"](ids[op[1] % len(ids)])
    elif op[0] == "sync":
        g["sync_orders"]()


def second(case, top, rd, wr):
    """the other strategy: does what it is told, one operation at a time"""
    def initialize(g, ctx):
        g["set_options"](**options_of(top, case["account"]))
        ids = []
        os.write(wr, b"r")
        while True:
            c = os.read(rd, 1)
            if c not in (b"o", b"s"):
                os._exit(0)
            operate(["order", {"code": "600000.XSHG", "amount": 300, "style": ["l", 9.5]}] if c == b"o" else ["sync"], g, 1, ids)
            os.write(wr, b"d")
    sim.start_task(sim.un(case["start"]), None, initialize, name=case["names"][1], code="vstrategy_1.py")


def pair(case):
    start = sim.un(case["start"])
    top = os.path.join(os.getcwd(), "top")
    os.makedirs(os.path.join(top, "orders"))
    os.makedirs(os.path.join(top, "run"))
    for kind in ("execResult", "orderUpdate"):
        anxin.write(anxin.path(os.path.join(top, "orders"), kind, start.date()), "")
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            second(case, top, r1, w2)
        finally:
            os._exit(3)
    os.close(r1)
    os.close(w2)
    if os.read(r2, 1) != b"r":
        sandbox.open_trace()
        sandbox.rec("gone")
        return True
    n = [-1]
    busy = []

    def hook(op, fd):
        if op == "lock" or busy:
            return
        n[0] += 1
        for k, what in case["when"]:
            if k == n[0]:
                sandbox.rec("between", op=op)
                os.write(w1, what[:1].encode())
                if os.read(r2, 1) != b"d":
                    sandbox.rec("gone")

    ids = []
    return run_steps(start, [[], case["pair"]], options_of(top), lambda op, g, ctx, k: operate(op, g, 0, ids), name=case["names"][0], code="vstrategy_0.py", before=lambda: vt.hook_ops(os.path.join(top, "run"), hook))


def revive(case, who):
    start = sim.un(case["start"]) + datetime.timedelta(minutes=15)
    top = os.path.join(os.getcwd(), "top")

    def do(op, g, ctx, k):
        g["sync_orders"]()
        sandbox.rec("revived", who=who, view=view(g))

    return run_steps(start, [[], [["final"]]], options_of(top, case["account"] if who else "1"), do, name=case["names"][who], code="vstrategy_%d.py" % who)


def judge_pair(case, results, day, d):
    for res in results:
        if res.status != "ok" or isinstance(res.value, dict) and res.value["end"] != "return":
            raise Violation("one of two strategies side by side %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = results[-1].trace
    if any(e["k"] == "gone" for e in tr):
        raise Violation("the second of two strategies side by side ended\n%s" % results[0].output[-2000:])
    placed = [e for e in tr if e["k"] == "pplaced"]
    for e in placed:
        if not e["id"] and not e["who"]:
            raise Violation("the order %s failed while another strategy wrote to the same directories\n%s" % (e["o"], results[0].output[-2000:]))
    rows, bad = anxin.read_orders(d, day)
    if bad or sorted(r[1] for r in rows) != sorted(e["id"] for e in placed if e["id"]):
        raise Violation("the order file holds %s, placed were %s; %s" % ([r[1] for r in rows], placed, bad))
    for who in (0, 1):
        got = [e["view"] for e in tr if e["k"] == "revived" and e["who"] == who]
        if not got:
            raise Violation("strategy %s did not come up again\n%s" % (case["names"][who], results[1 + who].output[-1500:]))
        want = {e["id"]: e["o"] for e in placed if e["who"] == who and e["id"]}
        if set(got[0]) != set(want):
            raise Violation("two strategies shared their directories; after a restart strategy %s knows the orders %s, it placed %s" % (case["names"][who], sorted(got[0]), sorted(want)))
        for oid, o in want.items():
            v = got[0][oid]
            if (v["code"], v["amount"], v["order_price"]) != (o["code"], abs(o["amount"]), agen.style_price(o)):
                raise Violation("after the restart order %s is %s, placed was %s" % (oid, v, o))
    n = sum(1 for e in tr if e["k"] == "between")
    return Outcome(n > 0 and any(e["who"] for e in placed), ["side by side"], {"case": case, "in between": n})


def run(case, env):
    if "pair" in case:
        d = env.new_dir()
        try:
            return judge_pair(case, [sandbox.run_case(pair, (case,), d)] + [sandbox.run_case(revive, (case, who), d) for who in (0, 1)], sim.un(case["start"]).date(), os.path.join(d, "top", "orders"))
        finally:
            env.drop(d)
    d = env.new_dir()
    try:
        return judge(case, [sandbox.run_case(simulate, (case, n), d) for n in range(len(case["runs"]) + 1)])
    finally:
        env.drop(d)
