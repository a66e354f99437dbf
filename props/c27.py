"""C27: trade-gate failures stay contained and custom gates are mirrored."""
import datetime

from hypothesis import strategies as st

from harness import agen, gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C27"
LEVEL = "fault_enumeration"
RULE = ("A case is a history of orders, batches, cancellations, broker changes and synchronisations (called by the strategy or in the background) with a custom trade gate whose methods fail for generated stretches with generated exceptions or give "
        "malformed reports; reports have every documented optional field present or absent, enumeration members or names, times as objects or text. After each call everything the strategy can see, and everything the gate was handed, is compared with a model. "
        "Non-trivial: a call failed at the gate and a later one of the same kind worked.")
ASSUMPTIONS = ["A report that breaks the documented format may be taken over up to the broken entry; it must not stop the process or later synchronisations."]
QUICK = 220
THOROUGH = 10000

CODES = agen.CODES[:3]
STATUSES = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
EXCS = ["RuntimeError", "OSError", "KeyError", "ValueError", "InvalidParam", "TypeError", "StopIteration", "TimeOut", "AttributeError", "ZeroDivisionError", "AssertionError", "NotImplementedError", "Empty"]
exc = st.sampled_from(EXCS)
money = st.sampled_from([0, 0.0, 1, 1000.55, 123456789.1234, -5.5, 0.01])
order = st.builds(lambda o, c, s: dict(o, code=c, **({"side": s} if s else {})), agen.orders(), st.sampled_from(CODES), st.sampled_from([None, "long", "short"]))
times = st.sampled_from(["2024-01-02T09:30:01", "2024-01-02T09:30:01.250000", "2024-02-29T00:00:00"])
state = st.fixed_dictionaries({"status": st.sampled_from(STATUSES)}, optional={
    "filled_amount": st.integers(0, 5000), "canceled_amount": st.integers(0, 5000), "deal_balance": money, "avg_cost": st.sampled_from([0, 10.123, None]), "confirm_id": st.sampled_from(["1", "A7"]), "entrust_time": times, "side": st.just(1),
    "err_msg": st.sampled_from(["", "资金不足"])})
position = st.builds(lambda c, s, a, v, avg, opt: dict({"code": c, "amount": a, "available_amount": min(a, v), "avg_cost": avg}, **dict(opt, **({"side": s} if s else {}))), st.sampled_from(CODES), st.sampled_from([None, "long", "short"]),
                     st.integers(0, 5000), st.integers(0, 5000), money, st.fixed_dictionaries({}, optional={"last_price": money, "position_value": money}))
cash = st.builds(lambda k, t, a, l: {k: t, "available_cash": a, "locked_cash": l}, st.sampled_from(["total_assert", "total_asset"]), money, money, money)


def uniq(l):
    out = {}
    for p in l:
        out[p.get("side") or "long", p["code"]] = p
    return list(out.values())


broker = st.builds(lambda c, p: ["broker", c, p], cash, st.lists(position, max_size=4).map(uniq))
WHAT = ["order", "cancel", "sync_balance", "sync_orders"]
op = mix(
    st.builds(lambda o: ["order", o], order), st.builds(lambda o: ["order", o], order), st.builds(lambda l: ["batch", l], st.lists(order, max_size=4)), st.builds(lambda i: ["cancel", i], st.integers(0, 9)),
    st.builds(lambda i, s, e, t: ["report", i, s, e, t], st.integers(0, 9), state, st.booleans(), st.booleans()), st.builds(lambda i, s, e, t: ["report", i, s, e, t], st.integers(0, 9), state, st.booleans(), st.booleans()),
    st.builds(lambda o, s, i: ["foreign", o, s, i], order, state, st.sampled_from(["77", "4294967295"])),
    broker, st.just(["sync_balance"]), st.just(["sync_orders"]), st.just(["sync_balance"]), st.just(["sync_orders"]),
    st.builds(lambda w, e: ["fail", w, e], st.sampled_from(WHAT), exc), st.builds(lambda w: ["heal", w], st.lists(st.sampled_from(WHAT), min_size=1, max_size=4)), st.just(["heal", WHAT]),
    st.builds(lambda w, k: ["malformed", w, k], st.sampled_from(["sync_balance", "sync_orders"]), st.integers(0, 7)))


group = mix(
    op.map(lambda o: [o]), op.map(lambda o: [o]),
    st.builds(lambda e, a, b: [["fail", "order", e], ["order", a], ["heal", ["order"]], ["order", b]], exc, order, order),
    st.builds(lambda e, a, i, j: [["order", a], ["fail", "cancel", e], ["cancel", i], ["heal", ["cancel"]], ["cancel", j]], exc, order, st.integers(0, 9), st.integers(0, 9)),
    st.builds(lambda e, l, l2: [["fail", "order", e], ["batch", l], ["heal", ["order"]], ["batch", l2]], exc, st.lists(order, min_size=1, max_size=3), st.lists(order, max_size=2)))
one_field = st.sampled_from([("filled_amount", 1), ("canceled_amount", 2), ("deal_balance", 7.5), ("avg_cost", 3.25), ("confirm_id", "B9"), ("entrust_time", "2024-01-03T10:00:00"), ("status", "filling"), ("err_msg", "x")])
group = mix(group, group, st.builds(lambda o, i, s, f: [["order", o], ["report", i, s, False, False], ["sync_orders"], ["report", i, dict(s, **{f[0]: f[1]}), False, False], ["sync_orders"]],
                                          order, st.integers(0, 9), state, one_field))
groups = st.lists(group, max_size=5).map(lambda l: [o for g in l for o in g])


@st.composite
def cases(draw, tier):
    return {"start": draw(agen.day_starts), "cash": draw(cash), "positions": draw(st.lists(position, max_size=4).map(uniq)), "background": draw(st.booleans()), "fail_first": draw(st.lists(st.sampled_from(["sync_balance", "sync_orders"]), max_size=1)),
            "steps": draw(st.lists(groups, min_size=1, max_size=5))}


def strategy(tier):
    return cases(tier)


def make_exc(name):
    import builtins
    if name == "Empty":
        return Exception()
    if name in ("InvalidParam", "TimeOut"):
        from jqtrade.common import exceptions
        return getattr(exceptions, name)("柜台 {拒绝} %s")
    return getattr(builtins, name)("柜台 {拒绝} %s")


def simulate(case):
    st_ = {"ids": [], "reports": {}}

    def before():
        b = st_["b"] = gate.install()
        b.cash, b.positions = case["cash"], case["positions"]
        for w in case["fail_first"]:
            b.fail[w] = make_exc("OSError")

    def view(g, ctx):
        return {"orders": gate.view_orders(g), "pf": gate.view_portfolio(ctx)}

    def publish(b):
        if st_.get("bad_orders") is None:
            b.orders = [dict(r) for r in st_["reports"].values()]

    def do(op, g, ctx, k):
        b, kind = st_["b"], op[0]
        from jqtrade.account.order import OrderAction, OrderSide, OrderStatus
        ncalls = len(b.calls)
        r = err = None
        ev = {}
        if k and not st_.get("step") == k:
            st_["step"] = k
            sandbox.rec("did", op=["start", k], r=None, err=None, view=view(g, ctx), calls=[])
        try:
            if kind == "order":
                known = set(g["get_orders"]())
                args, kw = agen.order_args(g, op[1])
                r = g["order"](*args, **kw)
                ev["new"] = sorted(set(g["get_orders"]()) - known)
            elif kind == "batch":
                known = set(g["get_orders"]())
                l = []
                for o in op[1]:
                    args, kw = agen.order_args(g, o)
                    l.append(dict(kw, code=args[0], amount=args[1]))
                r = g["batch_submit_orders"](l)
                ev["new"] = sorted(set(g["get_orders"]()) - known)
            elif kind == "cancel":
                if st_["ids"]:
                    ev["id"] = st_["ids"][op[1] % len(st_["ids"])]
                    r = g["cancel_order"](ev["id"])
            elif kind in ("sync_balance", "sync_orders"):
                r = g[kind]()
        except Exception as e:
            err = repr(e)
        if kind == "fail":
            b.fail[op[1]] = make_exc(op[2])
        elif kind == "heal":
            for w in op[1]:
                b.fail.pop(w, None)
                if w == "sync_balance":
                    b.raw_balance = None
                if w == "sync_orders":
                    st_["bad_orders"] = None
                    publish(b)
        elif kind == "malformed":
            good = {"cash": dict(b.cash), "positions": [dict(p) for p in b.positions]}
            if op[1] == "sync_balance":
                b.raw_balance = [[], {"cash": good["cash"]}, {"positions": []}, dict(good, positions=good["positions"] + [{"code": "x"}]), dict(good, positions=5), dict(good, cash=[]), "x",
                                 dict(good, positions=good["positions"] + [{"code": CODES[0], "amount": 1, "available_amount": 1, "avg_cost": 1, "side": "both"}])][op[2]]
            else:
                st_["bad_orders"] = True
                b.orders = [[{}], [{"order_id": "5"}], [5], [{"order_id": "5", "code": "x", "price": 1, "amount": 1, "action": "open", "status": "bad", "style": "limit"}], [None], [{"code": "x"}],
                            [{"order_id": "5", "code": "x", "price": 1, "amount": 1, "action": "hold", "status": "new", "style": "limit"}],
                            [{"order_id": "5", "code": "x", "price": 1, "amount": 1, "action": "open", "status": "new", "style": "limit", "create_time": "yesterday"}]][op[2]]
        elif kind == "broker":
            b.cash, b.positions = op[1], op[2]
        elif kind in ("report", "foreign"):
            if kind == "report":
                if st_["ids"]:
                    oid = st_["ids"][op[1] % len(st_["ids"])]
                    u = st_["placed"][oid]
                    rep = dict(u)
                    s, enum, text = op[2], op[3], op[4]
            else:
                o, s, oid = op[1], op[2], op[3]
                enum = text = False
                rep = dict(st_.setdefault("foreign", {}).setdefault(oid, {"order_id": oid, "code": o["code"], "price": agen.style_price(o), "amount": abs(o["amount"]), "action": "open" if o["amount"] > 0 else "close",
                           "style": "limit" if agen.limit_price(o) is not None else "market", "side": o.get("side") or "long", "create_time": datetime.datetime(2024, 1, 2, 9, 30)}))
            if kind == "foreign" or st_["ids"]:
                ev["id"] = oid
                ev["base"] = {x: (sim.iso(v) if isinstance(v, datetime.datetime) else v) for x, v in rep.items()}
                for x, v in s.items():
                    rep[x] = v if x not in ("side", "entrust_time") else rep["side"] if x == "side" else datetime.datetime.fromisoformat(v)
                if "side" not in s and kind == "report":
                    del rep["side"]
                if enum:
                    rep.update(status=OrderStatus[rep["status"]], action=OrderAction[rep["action"]])
                    if "side" in rep:
                        rep["side"] = OrderSide[rep["side"]]
                if text:
                    for x in ("create_time", "entrust_time"):
                        if rep.get(x):
                            rep[x] = rep[x].strftime("%Y-%m-%d %H:%M:%S.%f")
                st_["reports"][oid] = rep
                publish(b)
        if kind in ("order", "batch"):
            for x in [r] if kind == "order" else r or []:
                if x:
                    st_["ids"].append(x)
                    u = g["get_orders"]()[x]
                    st_.setdefault("placed", {})[x] = {"order_id": x, "code": u.code, "price": u.order_price, "amount": u.amount, "action": u.action, "style": u.style.value, "side": u.side, "create_time": u.create_time}
        sandbox.rec("did", op=op, r=r, err=err, view=view(g, ctx), calls=[list(c) for c in b.calls[ncalls:]], **ev)

    bg = case["background"]
    return run_steps(sim.un(case["start"]), [[]] + [[["sync_balance"], ["sync_orders"]]] + [[["heal", []]] + s for s in case["steps"]],
                     {"account_no": "1", "runtime_dir": "run", "sync_balance": bg, "sync_order": bg, "sync_internal": 7}, do, before=before)


def position_view(p):
    return {"code": p["code"], "code2": p["code"], "amount": p["amount"], "closeable": p["available_amount"], "locked": p["amount"] - p["available_amount"], "avg_cost": p["avg_cost"], "side": p.get("side") or "long",
            "last_price": p.get("last_price"), "value": p.get("position_value")}


class Model(object):
    def __init__(self, case):
        self.cash, self.positions = case["cash"], case["positions"]
        self.fail = set(case["fail_first"])
        self.bad_balance = self.bad_orders = False
        self.reports, self.orders = {}, {}
        self.pf = {"total": 0, "cash": 0, "locked": 0, "value": 0, "long": {}, "short": {}}

    def sync_balance(self):
        if "sync_balance" in self.fail or self.bad_balance:
            return False
        c = self.cash
        pf = {"total": c.get("total_asset", c.get("total_assert")), "cash": c["available_cash"], "locked": c["locked_cash"], "long": {}, "short": {}}
        for p in self.positions:
            pf[p.get("side") or "long"][p["code"]] = position_view(p)
        pf["value"] = sum(p["value"] or 0 for p in pf["long"].values())
        self.pf = pf
        return True

    def sync_orders(self):
        if "sync_orders" in self.fail or self.bad_orders:
            return False
        for oid, (base, s) in self.reports.items():
            self.orders[oid] = {
                "order_id": oid, "code": base["code"], "amount": base["amount"], "order_price": base["price"], "side": base["side"], "action": base["action"], "style": base["style"], "style_price": base["price"], "status": s["status"],
                "filled_amount": s.get("filled_amount", 0), "canceled_amount": s.get("canceled_amount", 0), "avg_price": s.get("avg_cost"), "deal_balance": s.get("deal_balance", 0), "err_msg": s.get("err_msg", ""),
                "create_time": str(sim.un(base["create_time"])), "entrust_time": str(sim.un(s["entrust_time"])) if s.get("entrust_time") else None}
        return True

    def place(self, oid, o):
        """an order just placed, as the strategy sees it"""
        price = agen.style_price(o)
        limit = agen.limit_price(o)
        side = o.get("side") or "long"
        return {"order_id": oid, "code": o["code"], "amount": abs(o["amount"]), "order_price": price, "side": side, "action": "open" if o["amount"] > 0 else "close", "style": "limit" if limit is not None else "market", "style_price": price,
                "status": "new", "filled_amount": 0, "canceled_amount": 0, "avg_price": None, "deal_balance": 0, "err_msg": "", "entrust_time": None}


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    did = [e for e in res.trace if e["k"] == "did"]
    n_ops = sum(1 for e in did if e["op"][0] != "start")
    if n_ops != 2 + sum(len(s) + 1 for s in case["steps"]):
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    m = Model(case)
    if case["background"]:
        m.sync_balance()
        m.sync_orders()
    failed, healed = set(), set()
    refused = {}
    for i, e in enumerate(did):
        op, kind = e["op"], e["op"][0]
        where = "call %d (%s): " % (i, op)
        want_calls = []
        if e["err"]:
            raise Violation(where + "%s came out of the trade gate's failure" % e["err"])

        def outcome(what, ok):
            if ok:
                healed.update({what} & failed)
            else:
                failed.add(what)
        if kind == "start" and case["background"]:
            m.sync_balance()
            m.sync_orders()
        elif kind in ("order", "batch"):
            l = [op[1]] if kind == "order" else op[1]
            r = [e["r"]] if kind == "order" else e["r"]
            fails = "order" in m.fail
            if len(r) != len(l) or any((x is None) != fails for x in r):
                raise Violation(where + "returned %s while the gate %s" % (e["r"], "fails" if fails else "works"))
            new = list(e["new"])
            for o, x in zip(l, r):
                outcome("order", not fails)
                d = m.place(x, o)
                want_calls.append(["order", {"code": d["code"], "amount": d["amount"], "price": d["order_price"], "side": d["side"], "action": d["action"], "style": d["style"], "status": "new"}])
                if x is not None:
                    if x not in new or x not in e["view"]["orders"]:
                        raise Violation(where + "the new order %s is not listed" % x)
                    new.remove(x)
                    d["create_time"] = e["view"]["orders"][x]["create_time"]
                    m.orders[x] = d
                    if d["action"] == "close" and d["code"] in m.pf[d["side"]]:
                        p = m.pf[d["side"]][d["code"]]
                        p["closeable"] = max(p["closeable"] - d["amount"], 0)
                        p["locked"] = p["amount"] - p["closeable"]
            for x in new:
                if e["view"]["orders"][x]["status"] not in ("rejected", "canceled"):
                    raise Violation(where + "the failed order is listed as %s" % e["view"]["orders"][x])
                refused[x] = e["view"]["orders"][x]
            if len(new) > (len(l) if fails else 0):
                raise Violation(where + "orders nobody placed appeared: %s" % new)
        elif kind == "cancel":
            if "id" in e:
                if e["r"] is not None:
                    raise Violation(where + "cancel_order returned %s" % e["r"])
                want_calls.append(["cancel", e["id"]])
                outcome("cancel", "cancel" not in m.fail)
        elif kind == "sync_balance":
            want_calls.append(["sync_balance"])
            outcome("sync_balance", m.sync_balance())
        elif kind == "sync_orders":
            want_calls.append(["sync_orders"])
            outcome("sync_orders", m.sync_orders())
        elif kind == "fail":
            m.fail.add(op[1])
        elif kind == "heal":
            for w in op[1]:
                m.fail.discard(w)
                if w == "sync_balance":
                    m.bad_balance = False
                if w == "sync_orders":
                    m.bad_orders = False
        elif kind == "malformed":
            if op[1] == "sync_balance":
                m.bad_balance = True
            else:
                m.bad_orders = True
        elif kind == "broker":
            m.cash, m.positions = op[1], op[2]
        elif kind in ("report", "foreign") and "id" in e:
            m.reports[e["id"]] = (e["base"], op[2])
        got_calls = []
        for c in e["calls"]:
            c = list(c)
            if c[0] == "order":
                d = dict(c[1])
                if not isinstance(d.pop("order_id"), str):
                    raise Violation(where + "the gate got an order without an id: %s" % c)
                c[1] = d
            elif c[0].startswith("sync"):
                c = c[:1]
            got_calls.append(c)
        if [c for c in got_calls] != want_calls:
            raise Violation(where + "the gate was handed %s, expected %s" % (got_calls, want_calls))
        have = dict(e["view"]["orders"])
        for x in refused:
            if have.pop(x, refused[x]) != refused[x]:
                raise Violation(where + "a failed order changed to %s" % e["view"]["orders"][x])
        if have != m.orders:
            diff = [(x, have.get(x), m.orders.get(x)) for x in sorted(set(have) | set(m.orders)) if have.get(x) != m.orders.get(x)]
            raise Violation(where + "order %s is seen as %s, expected %s" % diff[0])
        pf = e["view"]["pf"]
        for x in m.pf:
            if pf[x] != m.pf[x] and not (x == "value" and abs(pf[x] - m.pf[x]) < 1e-6 * max(1, abs(m.pf[x]))):
                raise Violation(where + "%s is seen as %s, expected %s" % (x, pf[x], m.pf[x]))
    return Outcome(bool(healed), ["failed and healed: " + w for w in healed] + ["failed: " + w for w in failed] + ["background"] * case["background"], {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
