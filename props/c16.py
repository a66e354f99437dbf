"""C16: order queries return exactly the matching orders."""
import datetime

from hypothesis import strategies as st

from harness import agen, gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C16"
LEVEL = "exploration"
RULE = ("A case is a set of orders, placed by the strategy and reported by a custom trade gate in all states, refused ones among them, followed by queries with every combination of filters (id as text or number, code, status as text or enumeration "
        "value, empty filters, values nobody has) and by changes the caller makes to the results; each query is compared with a reference query over the model, and what earlier queries returned must not change. "
        "Non-trivial: a query with a filter matched some of the orders and not others.")
ASSUMPTIONS = ["Filters are of the accepted kinds (C08 covers the others)."]
QUICK = 200
THOROUGH = 8000

CODES = agen.CODES[:3]
STATUSES = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
state = st.fixed_dictionaries({"status": st.sampled_from(STATUSES), "filled_amount": st.integers(0, 5000), "canceled_amount": st.integers(0, 5000), "deal_balance": st.sampled_from([0, 1.5, 123456.7891]),
                               "avg_cost": st.sampled_from([None, 0, 10.123]), "err_msg": st.sampled_from(["", "资金不足"]), "entrust": st.sampled_from([None, "2024-01-02 09:30:01", "2024-01-02 09:30:01.250000"])})
order = st.builds(lambda o, c, s: dict(o, code=c, **({"side": s} if s else {})), agen.orders(), st.sampled_from(CODES), st.sampled_from([None, "long", "short"]))
op = mix(
    st.builds(lambda o, f: ["order", o, f], order, st.sampled_from([False, False, False, True])), st.builds(lambda o: ["order", o, False], order),
    st.builds(lambda i, s: ["report", i, s], st.integers(0, 9), state), st.builds(lambda i, s: ["report", i, s], st.integers(0, 9), state),
    st.builds(lambda o, s, i: ["foreign", o, s, i], order, state, st.sampled_from(["77", "4294967295", "10"])), st.just(["sync"]), st.just(["sync"]))
query = st.fixed_dictionaries({
    "id": mix(st.none(), st.none(), st.none(), st.integers(0, 9), st.sampled_from(["none", "empty", "1", "x"])), "idform": st.sampled_from(["str", "str", "int"]),
    "code": st.sampled_from([None, None, "", "000002.XSHE"] + CODES), "status": st.sampled_from([None, None, None, "", "n"] + STATUSES), "enum": st.booleans(),
    "mutate": st.sampled_from([None, "clear", "pop", "add", "replace"]), "pos": st.booleans()})


@st.composite
def cases(draw, tier):
    steps = [list(x) for x in draw(st.lists(st.tuples(st.lists(op, min_size=draw(st.sampled_from([0, 3])), max_size=7), st.lists(query, max_size=5)), min_size=1, max_size=4))]
    if draw(st.integers(0, 11)) == 0:        # many orders
        steps[0][0] = [["order", o, False] for o in draw(st.lists(order, min_size=3, max_size=6)) * draw(st.sampled_from([5, 25]))] + steps[0][0]
    return {"start": draw(agen.day_starts), "steps": steps}


def strategy(tier):
    return cases(tier)


def simulate(case):
    st_ = {}

    def before():
        st_.update(b=gate.install(), ids=[])

    def do(op, g, ctx, k):
        b, kind = st_["b"], op[0]
        b.fail.clear()
        if kind == "order":
            if op[2]:
                b.fail["order"] = RuntimeError("柜台拒绝")
            known = set(g["get_orders"]())
            args, kw = agen.order_args(g, op[1])
            r = g["order"](*args, **kw)
            new = sorted(set(g["get_orders"]()) - known)
            sandbox.rec("placed", o=op[1], id=r, new=new, fail=op[2])
            if r:
                st_["ids"].append(r)
                u = g["get_orders"]()[r]
                st_.setdefault("reports", {})[r] = {"order_id": r, "code": u.code, "price": u.order_price, "amount": u.amount, "action": u.action, "status": "new", "style": u.style.value, "side": u.side,
                                                    "create_time": u.create_time}
        elif kind in ("report", "foreign"):
            reports = st_.setdefault("reports", {})
            if kind == "report":
                if not st_["ids"]:
                    return
                oid = st_["ids"][op[1] % len(st_["ids"])]
                s = op[2]
            else:
                o, s, oid = op[1], op[2], op[3]
                args, kw = agen.order_args(g, o)
                if oid not in st_["ids"]:
                    st_["ids"].append(oid)
                reports[oid] = reports.get(oid) or {"order_id": oid, "code": o["code"], "price": agen.style_price(o), "amount": abs(o["amount"]), "action": "open" if o["amount"] > 0 else "close",
                                "style": "limit" if agen.limit_price(o) is not None else "market", "side": o.get("side") or "long", "create_time": datetime.datetime(2024, 1, 2, 9, 30)}
            r = reports[oid]
            for x in ("status", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "err_msg"):
                r[x] = s[x]
            r["entrust_time"] = s["entrust"] if op[0] == "report" else (datetime.datetime.fromisoformat(s["entrust"]) if s["entrust"] else None)
            sandbox.rec("report", id=oid, s=s, o=op[1] if kind == "foreign" else None)
        elif kind == "sync":
            b.orders = [dict(r) for r in st_.get("reports", {}).values()]
            g["sync_orders"]()
            sandbox.rec("sync")
        elif kind == "query":
            q = op[1]
            oid = None
            if isinstance(q["id"], int):
                oid = st_["ids"][q["id"] % len(st_["ids"])] if st_["ids"] else "5"
            elif q["id"]:
                oid = {"none": None, "empty": "", "1": "1", "x": "x"}[q["id"]]
            kw = {}
            if q["id"] is not None:
                kw["order_id"] = int(oid) if q["idform"] == "int" and oid and oid.isdigit() else oid
            if q["code"] is not None:
                kw["code"] = q["code"]
            if q["status"] is not None:
                OrderStatus = g.get("OrderStatus")  # documented among the strategy's names
                if OrderStatus is None:
                    sandbox.rec("query", q=q, id=oid, err="the documented name OrderStatus is missing", view=None, keys=None)
                    return
                kw["status"] = None if q["status"] == "n" else OrderStatus[q["status"]] if q["enum"] and q["status"] else q["status"]
            try:
                if q["pos"]:
                    res = g["get_orders"](kw.get("order_id"), kw.get("code"), kw.get("status"))
                else:
                    res = g["get_orders"](**kw)
            except Exception as e:
                sandbox.rec("query", q=q, id=oid, err=repr(e), view=None, keys=None)
                return
            sandbox.rec("query", q=q, id=oid, err=None, view={i: gate.view_order(u) for i, u in res.items()}, same=all(i == u.order_id for i, u in res.items()), typ=isinstance(res, dict))
            st_.setdefault("kept", []).extend((u, gate.view_order(u)) for u in res.values())
            m = q["mutate"]
            if m == "clear":
                res.clear()
            elif m == "pop" and res:
                res.popitem()
            elif m == "add":
                res["12345"] = None
            elif m == "replace":
                for i in list(res):
                    res[i] = None

        elif kind == "kept":
            for u, v in st_.get("kept", []):
                if gate.view_order(u) != v:
                    sandbox.rec("changed", was=v, now=gate.view_order(u))
                    break

    steps = [[]]
    for ops, qs in case["steps"]:
        steps.append(ops + [["query", q] for q in qs] + [["kept"]])
    return run_steps(sim.un(case["start"]), steps, {"account_no": "1", "runtime_dir": "run", "sync_balance": False, "sync_order": False}, do, before=before)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    model, pending = {}, {}
    nt = False
    nq = 0
    for e in res.trace:
        k = e["k"]
        if k == "placed":
            o = e["o"]
            m = {"code": o["code"], "amount": abs(o["amount"]), "action": "open" if o["amount"] > 0 else "close", "side": o.get("side") or "long", "order_price": agen.style_price(o),
                 "style": "limit" if agen.limit_price(o) is not None else "market", "style_price": agen.style_price(o), "status": "new", "filled_amount": 0, "canceled_amount": 0, "avg_price": None, "deal_balance": 0}
            if (e["id"] is None) != e["fail"]:
                raise Violation("order %s %s" % (o, "failed" if e["id"] is None else "succeeded although the trade gate refused it"))
            if e["fail"]:
                # whether a failed order is kept is free, but an active one it must not be
                for i in e["new"]:
                    model[i] = dict(m, status="rejected", order_id=i)
            else:
                model[e["id"]] = dict(m, order_id=e["id"])
        elif k == "report":
            o, s = e["o"], e["s"]
            p = pending.setdefault(e["id"], dict(model.get(e["id"], {}), order_id=e["id"]))
            if o and "code" not in p:
                p.update(code=o["code"], amount=abs(o["amount"]), action="open" if o["amount"] > 0 else "close", side=o.get("side") or "long", order_price=agen.style_price(o), style_price=agen.style_price(o),
                         style="limit" if agen.limit_price(o) is not None else "market")
            p.update(status=s["status"], filled_amount=s["filled_amount"], canceled_amount=s["canceled_amount"], deal_balance=s["deal_balance"], avg_price=s["avg_cost"], err_msg=s["err_msg"],
                     entrust_time=str(datetime.datetime.fromisoformat(s["entrust"])) if s["entrust"] else None)
        elif k == "changed":
            raise Violation("an order returned by get_orders changed later from %s to %s" % (e["was"], e["now"]))
        elif k == "sync":
            for i, p in pending.items():
                model[i] = dict(p)
        elif k == "query":
            nq += 1
            q = e["q"]
            st_ = q["status"] if q["status"] not in ("", "n", None) else None
            want = {i: m for i, m in model.items() if (not e["id"] or i == e["id"]) and (not q["code"] or m["code"] == q["code"]) and (not st_ or m["status"] == st_)}
            desc = "get_orders(order_id=%r, code=%r, status=%r)" % (e["id"], q["code"], q["status"])
            if e["err"]:
                raise Violation("%s raised %s" % (desc, e["err"]))
            got = e["view"]
            if set(got) != set(want) or not e["same"] or not e["typ"]:
                raise Violation("%s returned the orders %s, matching are %s; known: %s" % (desc, sorted(got), sorted(want), {i: (m["code"], m["status"]) for i, m in model.items()}))
            for i, m in want.items():
                bad = {f: (got[i][f], m[f]) for f in m if got[i][f] != m[f]}
                if bad:
                    raise Violation("%s shows order %s with (shown, expected) %s" % (desc, i, bad))
            nt |= 0 < len(want) < len(model)
    if nq != sum(len(s[1]) for s in case["steps"]):
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    return Outcome(nt, ["queries"] * bool(nq), {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
