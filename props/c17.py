"""C17: a batch is the same as its single orders, aligned and isolated."""
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C17"
LEVEL = "exploration"
RULE = ("A case is a list of order descriptions - valid ones, ones with invalid, missing or surplus fields, other objects - and of ids to cancel, with a pattern of trade-gate failures. It is run twice, as a batch and as single calls, with the same custom trade "
        "gate (or with the built-in one, whose files are compared); what the gate got, results, orders and positions must be the same, results aligned with the list. "
        "Non-trivial: a good element came after a bad one.")
ASSUMPTIONS = ["A batch is a list or a tuple."]
QUICK = 130
THOROUGH = 5000

CODES = agen.CODES[:3]
good = st.builds(lambda o, c, s, x: dict(o, code=c, side=s, extra=x), agen.orders(), st.sampled_from(CODES), st.sampled_from([None, "long", "short", "absent", "absent"]), st.sampled_from([0, 0, 0, 1]))
bad = st.builds(lambda o: {"bad": o}, agen.bad_orders())
missing = st.builds(lambda o, f: {"missing": dict(o, side="absent"), "field": f}, agen.orders(), st.sampled_from(["code", "amount", "both", "code_none", "amount_none"]))
junk = st.sampled_from([{"junk": "none"}, {"junk": "int"}, {"junk": "str"}, {"junk": "list"}, {"junk": "empty"}, {"junk": "tuple"}])
element = mix(good, good, good, bad, missing, junk)


@st.composite
def cases(draw, tier):
    gate_ = draw(st.sampled_from(["custom", "custom", "custom", "anxin"]))
    batches = draw(st.lists(st.lists(element, max_size=8), min_size=1, max_size=3))
    far = 1
    if draw(st.integers(0, 11)) == 0:        # long lists
        far = draw(st.sampled_from([5, 25]))
        batches[0] = batches[0] * far
    return {"start": draw(agen.day_starts), "gate": gate_, "pre": draw(st.lists(agen.orders(code=st.sampled_from(CODES)), max_size=3)), "batches": batches,
            "fail": draw(st.lists(st.integers(0, 12 * far), max_size=4, unique=True)), "tuple": draw(st.booleans()),
            "cancels": draw(st.lists(mix(st.integers(0, 12), st.sampled_from(["unknown", "none", "int", "float", "list"])), max_size=7)),
            "cfail": draw(st.lists(st.integers(0, 8), max_size=3, unique=True)), "exc": draw(st.sampled_from(["RuntimeError", "OSError", "KeyError", "ValueError", "InvalidParam"]))}


def strategy(tier):
    return cases(tier)


def exc(name):
    if name == "InvalidParam":
        from jqtrade.common.exceptions import InvalidParam
        return InvalidParam("柜台拒绝")
    return {"RuntimeError": RuntimeError, "OSError": OSError, "KeyError": KeyError, "ValueError": ValueError}[name]("柜台拒绝")


def build(g, e):
    """-> the element, and the single call it stands for (None: there is none)"""
    from props import c06
    if "junk" in e:
        return {"none": None, "int": 5, "str": "000001.XSHE", "list": ["000001.XSHE", 100], "empty": {}, "tuple": ("000001.XSHE", 100)}[e["junk"]], None
    o = e.get("bad") or e.get("missing") or e
    o = {k: v for k, v in o.items() if not (k == "side" and v == "absent")}
    args, kw = c06.order_kw(g, {k: v for k, v in o.items() if k != "extra"})
    d = dict(kw, code=args[0], amount=args[1])
    if o.get("extra"):
        d["comment"] = "x"
    if "missing" in e:
        f = e["field"]
        for x in ("code", "amount"):
            if f in (x, "both"):
                del d[x]
            elif f == x + "_none":
                d[x] = None
        return d, None
    return d, (args, kw)


def simulate(case, mode):
    st_ = {"ids": [], "n": 0, "c": 0}
    wd = os.path.join(os.getcwd(), "orders_" + mode)
    options = {"account_no": "1", "runtime_dir": "run_" + mode, "sync_balance": False, "sync_order": False}
    if case["gate"] == "anxin":
        os.makedirs(wd)
        options["order_dir"] = wd

    def before():
        if case["gate"] == "custom":
            b = st_["b"] = gate.install()
            b.positions = [{"code": c, "amount": 1000, "available_amount": 1000, "avg_cost": 1, "side": s} for c in CODES for s in ("long", "short")]

            def hook(o):
                st_["n"] += 1
                if st_["armed"] and st_["n"] - 1 in case["fail"]:
                    raise exc(case["exc"])
            b.order_hook = hook
            st_["armed"] = False
        else:
            st_["armed"] = True

    def name(i):
        return st_["ids"].index(i) if i in st_["ids"] else i

    def single(g, call):
        if call is None:
            return None
        try:
            return g["order"](*call[0], **call[1])
        except Exception:
            return None

    def do(op, g, ctx, k):
        if op[0] == "pre":
            if case["gate"] == "custom":
                g["sync_balance"]()
            for o in case["pre"]:
                args, kw = agen.order_args(g, o)
                st_["ids"].append(g["order"](*args, **kw))
            st_["armed"], st_["n"] = True, 0
            return
        if op[0] == "batch":
            pairs = [build(g, e) for e in case["batches"][op[1]]]
            l = [p[0] for p in pairs]
            err = None
            try:
                r = g["batch_submit_orders"](tuple(l) if case["tuple"] else l) if mode == "batch" else [single(g, p[1]) for p in pairs]
            except Exception as e:
                r, err = None, repr(e)
            st_["ids"] += [x for x in r or [] if x]
            sandbox.rec("batch" if mode == "batch" else "single", n=op[1], r=r if r is None else [None if x is None else name(x) for x in r], err=err, cls=type(r).__name__)
        elif op[0] == "cancel":
            l = []
            for c in case["cancels"]:
                if isinstance(c, int):
                    if st_["ids"]:
                        l.append(st_["ids"][c % len(st_["ids"])])
                else:
                    l.append({"unknown": "123", "none": None, "int": int(st_["ids"][0]) if st_["ids"] else 1, "float": 1.5, "list": []}[c])
            if case["gate"] == "custom":
                b = st_["b"]
                orig = b.fail

                class Fail(dict):
                    def get(self, what, default=None):
                        if what == "cancel":
                            st_["c"] += 1
                            if st_["c"] - 1 in case["cfail"]:
                                return exc(case["exc"])
                        return None
                b.fail = Fail()
            err = None
            try:
                if mode == "batch":
                    g["batch_cancel_orders"](tuple(l) if case["tuple"] else l)
                else:
                    for x in l:
                        g["cancel_order"](x)
            except Exception as e:
                err = repr(e)
            sandbox.rec("cancelled", mode=mode, err=err)
            if case["gate"] == "custom":
                b.fail = orig
        else:
            orders = []
            for i, v in g["get_orders"]().items():
                v = gate.view_order(v)
                for x in ("order_id", "create_time"):
                    v.pop(x)
                orders.append(dict(v, id=name(i) if i in st_["ids"] else "failed"))
            calls = []
            if case["gate"] == "custom":
                for c in st_["b"].calls:
                    if c[0] == "order":
                        d = dict(c[1])
                        d.pop("order_id")
                        calls.append(["order", d])
                    elif c[0] == "cancel":
                        calls.append(["cancel", name(c[1])])
                v = gate.view_portfolio(ctx)
                pos = [v["long"], v["short"]]
            else:
                day = sim.un(case["start"]).date()
                rows, b1 = anxin.read_orders(wd, day)
                crow, b2 = anxin.read_cancels(wd, day)
                calls = [[name(r[1])] + r[2:] for r in rows] + [name(r[1]) for r in crow] + [x for x in b1 + b2]
                pos = None
            sandbox.rec("final", mode=mode, orders=orders, calls=calls, pos=pos)

    return run_steps(sim.un(case["start"]), [[], [["pre"]]] + [[["batch", i]] for i in range(len(case["batches"]))] + [[["cancel"], ["final"]]], options, do, before=before)


def judge(case, results):
    for res in results:
        if res.status != "ok" or res.value["end"] != "return":
            raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = results[-1].trace
    b = [e for e in tr if e["k"] == "batch"]
    s = [e for e in tr if e["k"] == "single"]
    fin = {e["mode"]: e for e in tr if e["k"] == "final"}
    if len(fin) != 2 or len(b) != len(s) or len(b) != len(case["batches"]):
        raise Violation("the strategy did not get through its callbacks\n%s" % results[0].output[-1500:])
    nt = False
    for x, y in zip(b, s):
        els = case["batches"][x["n"]]
        if x["err"]:
            raise Violation("batch_submit_orders(%s) raised %s" % (els, x["err"]))
        if x["cls"] != "list" or len(x["r"]) != len(els):
            raise Violation("batch_submit_orders of %d elements returned %s" % (len(els), x["r"]))
        if x["r"] != y["r"]:
            raise Violation("batch %s gave %s (numbers: in the order placed), single orders %s" % (els, x["r"], y["r"]))
        nt |= None in x["r"] and any(r is not None for r in x["r"][x["r"].index(None):])
    for e in tr:
        if e["k"] == "cancelled" and e["err"]:
            raise Violation("cancelling %s (%s) raised %s" % (case["cancels"], e["mode"], e["err"]))
    for k in ("calls", "orders", "pos"):
        if fin["batch"][k] != fin["single"][k]:
            i = next((i for i, (p, q) in enumerate(zip(fin["batch"][k] or [], fin["single"][k] or [])) if p != q), "end")
            raise Violation("%s differ at %s: with batches %s, with single calls %s" % (
                {"calls": "what the trade gate got", "orders": "the orders known", "pos": "the positions"}[k], i, fin["batch"][k], fin["single"][k]))
    return Outcome(nt, [case["gate"]] + ["good after bad"] * nt + ["cancels"] * bool(case["cancels"]), {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, [sandbox.run_case(simulate, (case, m), d) for m in ("batch", "single")])
    finally:
        env.drop(d)
