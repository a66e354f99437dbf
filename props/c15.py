"""C15: closing orders reserve closeable amount at once, and only they do."""
from hypothesis import strategies as st

from harness import agen, gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C15"
LEVEL = "exploration"
RULE = ("A case is a history of opening and closing orders (single and batch, long and short, held and not held, more than closeable), cancellations, trade-gate failures, changes at the broker and synchronisations; after each "
        "call all positions are compared with a model account. Non-trivial: a successful closing order on a held position and a synchronisation after it.")
ASSUMPTIONS = ["The trade gate is a custom one; how the built-in gate reads positions is C12."]
QUICK = 200
THOROUGH = 8000

CODES = agen.CODES[:2]
order = st.builds(lambda c, q, sg, side, style: dict({"code": c, "amount": q * sg, "style": style}, **({"side": side} if side else {})), st.sampled_from(CODES),
                  mix(st.integers(1, 12).map(lambda n: n * 100), st.integers(1, 2500)), st.sampled_from([1, -1, -1]), st.sampled_from([None, "long", "short", "short"]), agen.styles)
position = st.builds(lambda c, a, v, s: {"code": c, "amount": a, "available_amount": min(a, v), "avg_cost": 10.5, "side": s, "last_price": 11, "position_value": 11 * a},
                     st.sampled_from(CODES), st.integers(1, 31).map(lambda n: n % 31 * 100), mix(st.just(10 ** 9), st.integers(1, 3001).map(lambda n: n % 3001)), st.sampled_from(["long", "long", "short"]))


def book(l):
    out = {}
    for p in l:
        out[p["side"], p["code"]] = p
    return list(out.values())


books = st.lists(position, max_size=5).map(book)
op = mix(st.builds(lambda o: ["order", o, False], order), st.builds(lambda o: ["order", o, False], order), st.builds(lambda o, f: ["order", o, f], order, st.booleans()),
               st.builds(lambda l, f: ["batch", l, f], st.lists(order, max_size=4), st.lists(st.integers(0, 3), max_size=2)), st.builds(lambda i: ["cancel", i], st.integers(0, 9)),
               st.builds(lambda o: ["bad", o], agen.bad_orders()), st.builds(lambda b: ["broker", b], books), st.just(["sync"]), st.just(["sync"]), st.just(["sync_orders"]), st.just(["sync_fail"]))


@st.composite
def cases(draw, tier):
    start = draw(st.lists(position, min_size=1, max_size=5).map(book))
    close = st.builds(lambda p, q, style, pct: {"code": p["code"], "amount": -(max(1, p["available_amount"] * pct // 100) if pct else q), "style": style, "side": p["side"]}, st.sampled_from(start), st.integers(1, 2500), agen.styles,
                      st.sampled_from([0, 25, 50, 50, 100]))
    ops = mix(op, op, close.map(lambda o: ["order", o, False]), st.builds(lambda l, f: ["batch", l, f], st.lists(mix(close, order), max_size=4), st.lists(st.integers(0, 3), max_size=1)))
    return {"start": draw(agen.day_starts), "book": start, "steps": draw(st.lists(st.lists(ops, min_size=draw(st.sampled_from([0, 2])), max_size=6), min_size=draw(st.sampled_from([1, 2, 3])), max_size=4))}


def strategy(tier):
    return cases(tier)


def simulate(case):
    st_ = {}

    def before():
        st_["b"] = gate.install()
        st_["b"].positions = case["book"]
        st_["ids"] = []

    def pos(ctx):
        v = gate.view_portfolio(ctx)
        return {"long": v["long"], "short": v["short"]}

    def do(op, g, ctx, k):
        from props import c06
        b, kind = st_["b"], op[0]
        b.fail.clear()
        r = None
        if kind == "order":
            if op[2]:
                b.fail["order"] = RuntimeError("no")
            args, kw = agen.order_args(g, op[1])
            r = [g["order"](*args, **kw)]
        elif kind == "bad":
            args, kw = c06.order_kw(g, op[1])
            try:
                g["order"](*args, **kw)
            except Exception as e:
                r = type(e).__name__
        elif kind == "batch":
            n = [0]

            def hook(o):
                n[0] += 1
                if n[0] - 1 in op[2]:
                    raise ValueError("no")
            b.order_hook = hook
            l = []
            for o in op[1]:
                args, kw = agen.order_args(g, o)
                l.append(dict(kw, code=args[0], amount=args[1]))
            r = g["batch_submit_orders"](l)
            b.order_hook = None
        elif kind == "cancel":
            if st_["ids"]:
                g["cancel_order"](st_["ids"][op[1] % len(st_["ids"])])
        elif kind == "broker":
            b.positions = op[1]
        elif kind == "sync":
            g["sync_balance"]()
        elif kind == "sync_orders":
            g["sync_orders"]()
        elif kind == "sync_fail":
            b.fail["sync_balance"] = RuntimeError("no")
            g["sync_balance"]()
        if isinstance(r, list):
            st_["ids"] += [x for x in r if x]
        sandbox.rec("did", op=op, r=r, view=pos(ctx))

    return run_steps(sim.un(case["start"]), [[]] + [[["sync"]]] + case["steps"], {"account_no": "1", "runtime_dir": "run", "sync_balance": False, "sync_order": False}, do, before=before)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    did = [e for e in res.trace if e["k"] == "did"]
    if len(did) != 1 + sum(map(len, case["steps"])):
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    broker = {(p["side"], p["code"]): p for p in case["book"]}
    model = {}
    closed = synced = short = over = False
    for n, e in enumerate(did):
        o = e["op"]
        kind = o[0]
        if kind == "broker":
            broker = {(p["side"], p["code"]): p for p in o[1]}
        elif kind == "sync":
            model = {k: dict(p) for k, p in broker.items()}
            synced |= closed
        elif kind in ("order", "batch"):
            l = [o[1]] if kind == "order" else o[1]
            fails = ([0] if o[2] else []) if kind == "order" else o[2]
            if len(e["r"]) != len(l):
                raise Violation("%d orders gave %s" % (len(l), e["r"]))
            for i, x in enumerate(l):
                if (e["r"][i] is None) != (i in fails):
                    raise Violation("order %s %s" % (x, "failed" if e["r"][i] is None else "succeeded although the trade gate refused it"))
                p = model.get((x.get("side") or "long", x["code"]))
                if x["amount"] < 0 and i not in fails and p:
                    over |= p["available_amount"] + x["amount"] < 0
                    p["available_amount"] = max(0, p["available_amount"] + x["amount"])
                    closed = True
                    short |= x.get("side") == "short"
        want = {"long": {}, "short": {}}
        for (s, c), p in model.items():
            want[s][c] = {"code": c, "code2": c, "amount": p["amount"], "closeable": p["available_amount"], "avg_cost": p["avg_cost"], "side": s, "last_price": p["last_price"],
                          "value": p["position_value"], "locked": p["amount"] - p["available_amount"]}
        if e["view"] != want:
            raise Violation("after operation %d, %s -> %s, the positions are %s, expected %s" % (n, o, e["r"], e["view"], want))
    return Outcome(closed and synced, ["short closed"] * short + ["more than closeable"] * over, {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
