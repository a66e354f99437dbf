"""C08: invalid orders and queries are refused with InvalidParam and have no effect; valid ones are accepted."""
from hypothesis import strategies as st

from harness import agen, gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C08"
LEVEL = "exploration"
RULE = ("A case is a series of order and get_orders calls, each argument drawn from valid values, near misses (mutated codes, wrong types, wrong case, fractions) and arbitrary "
        "text, positional or by keyword, against an account with positions; a reference predicate says valid or invalid, and after each call the exception, the calls "
        "the trade gate got, the known orders and the positions are compared. Non-trivial: the series has at least one invalid and one valid call.")
ASSUMPTIONS = ["Open, because the documentation is silent: booleans and numpy integers as amounts, enumeration members as side, falsy values as style, side and "
               "filters (they mean 'not given'), and the value of a limit price."]
QUICK = 160
THOROUGH = 4000

# arguments are encoded as [kind, value]: v value itself, b bytes, l limit style, m market style, c a class, o an object
text = st.text(max_size=9)
near = st.builds(lambda c, i, x, op: (c[:i] + x + c[i:]) if op == 0 else (c[:i] + c[i + 1:]) if op == 1 else (c[:i] + x + c[i + 1:]),
                 agen.codes, st.integers(0, 10), st.sampled_from(list("0aXSHEGZ. ,-٣²") + ["．", "\n"]), st.integers(0, 2))
code_vals = mix(
    agen.codes, agen.codes, agen.codes, agen.codes, agen.codes, near, st.sampled_from(agen.BAD_CODES), text,
    st.builds(lambda t, e: t + e, text, st.sampled_from([".XSHE", ".XSHG"]))).map(lambda v: ["v", v])
code_args = mix(code_vals, code_vals, code_vals, code_vals, code_vals, code_vals, st.sampled_from(
    [["v", None], ["v", 1], ["v", 600000], ["b", "000001.XSHE"], ["v", ["000001.XSHE"]], ["v", {}], ["v", 1.5], ["c", ""], ["o", ""]]))
amount_args = mix(
    agen.amounts, agen.amounts, agen.amounts, agen.amounts, st.sampled_from([0, 1, -1, 10 ** 30, -10 ** 18]),
    st.sampled_from([0.0, 1.0, 100.0, -100.5, None, "100", "", [1], {"a": 1}, 1e300]), st.floats(allow_nan=True)).map(lambda v: ["v", v])
style_args = mix(
    st.just(["none", ""]), st.just(["none", ""]), st.builds(lambda p: ["l", p], agen.prices), st.builds(lambda p: ["m", p], agen.prices),
    st.just(["m", 0]), st.sampled_from([["v", "market"], ["v", "limit"], ["v", 5], ["v", 9.5], ["c", ""], ["o", ""], ["base", 5], ["v", [1]], ["v", {"a": 1}]]))
side_args = mix(st.just(["none", ""]), st.just(["none", ""]), st.sampled_from([["v", "long"], ["v", "short"], ["v", None]]),
                      st.sampled_from([["v", s] for s in agen.BAD_SIDES] + [["v", ["long"]], ["v", {"a": 1}], ["b", "long"], ["o", ""], ["v", 2.5]]),
                      st.builds(lambda t: ["v", t], text))
STATUSES = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
status_args = mix(st.just(["none", ""]), st.sampled_from([["v", s] for s in STATUSES]), st.sampled_from([["e", s] for s in STATUSES]),
                        st.sampled_from([["v", s] for s in ["NEW", "done", "partly_cancelled", "new ", "1", "cancelled", ["new"], 5, {"a": 1}, 1.5]] + [["b", "new"], ["o", ""]]),
                        st.builds(lambda t: ["v", t], text))
calls = mix(
    st.fixed_dictionaries({"do": st.just("order"), "code": code_args, "amount": amount_args, "style": style_args, "side": side_args, "pos": st.booleans()}),
    st.fixed_dictionaries({"do": st.just("order"), "code": code_args, "amount": amount_args, "style": style_args, "side": side_args, "pos": st.booleans()}),
    st.fixed_dictionaries({"do": st.just("query"), "code": mix(st.just(["none", ""]), code_args), "status": status_args,
                           "id": st.sampled_from([["none", ""], ["none", ""], ["v", "1"], ["v", 1], ["last", ""]]), "pos": st.booleans()}))


def strategy(tier):
    return st.fixed_dictionaries({"start": agen.day_starts, "calls": st.lists(calls, min_size=5, max_size=25), "later": st.booleans()})


def is_str_code(v):
    return isinstance(v, str) and len(v) > 5 and v[-5:] in (".XSHE", ".XSHG") and all("0" <= c <= "9" for c in v[:-5])


def falsy(a):
    return a[0] == "none" or (a[0] == "v" and not a[1]) or (a[0] == "b" and not a[1])


def verdict(c):
    """True valid, False invalid, None open"""
    if c["do"] == "query":
        bad = False
        if not falsy(c["code"]) and not (c["code"][0] == "v" and is_str_code(c["code"][1])):
            bad = True
        if not falsy(c["status"]) and not (c["status"][0] in "ve" and isinstance(c["status"][1], str) and c["status"][1] in STATUSES):
            bad = True
        return not bad
    bad = not (c["code"][0] == "v" and is_str_code(c["code"][1]))
    a = c["amount"][1]
    bad |= not (type(a) is int and a != 0)
    if c["style"][0] not in ("none", "l", "m"):
        bad = True
    if not falsy(c["side"]) and not (c["side"][0] == "v" and c["side"][1] in ("long", "short")):
        bad = True
    return not bad


def decode(g, a, last=None):
    k, v = a
    if k == "none":
        return None
    if k == "b":
        return v.encode()
    if k == "l":
        return g["LimitOrderStyle"](v)
    if k == "m":
        return g["MarketOrderStyle"](v)
    if k == "c":
        return g["LimitOrderStyle"]
    if k == "o":
        return object()
    if k == "base":
        from jqtrade.account.order import OrderStyle
        return OrderStyle(v)
    if k == "e":
        from jqtrade.account.order import OrderStatus
        return OrderStatus(v)
    if k == "last":
        return last
    return v


def simulate(case):
    start = sim.un(case["start"])
    book = gate.install()
    book.positions = [dict(code="000001.XSHE", amount=10 ** 6, available_amount=10 ** 6, avg_cost=1.0, side="long"),
                      dict(code="600000.XSHG", amount=500, available_amount=500, avg_cost=1.0, side="short")]
    last = [None]

    def view(g, ctx):
        pf = gate.view_portfolio(ctx)
        return [gate.view_orders(g), pf["long"], pf["short"]]

    def do(c, g, ctx, k):
        before = view(g, ctx)
        ncalls = len(book.calls)
        if c["do"] == "order":
            vals = [decode(g, c[n]) for n in ("code", "amount", "style", "side")]
            if c["pos"]:
                args, kw = vals, {}
            else:
                args = vals[:2]
                kw = {n: v for n, v, a in zip(("style", "side"), vals[2:], (c["style"], c["side"])) if a[0] != "none"}
            f = g["order"]
        else:
            vals = [decode(g, c[n], last[0]) for n in ("id", "code", "status")]
            if c["pos"]:
                args, kw = vals, {}
            else:
                args, kw = [], {n: v for n, v, a in zip(("order_id", "code", "status"), vals, (c["id"], c["code"], c["status"])) if a[0] != "none"}
            f = g["get_orders"]
        exc = result = None
        try:
            result = f(*args, **kw)
        except BaseException as e:
            from jqtrade.common.exceptions import InvalidParam
            exc = [type(e).__name__, str(e), isinstance(e, InvalidParam)]
        if c["do"] == "order" and isinstance(result, str):
            last[0] = result
        after = view(g, ctx)
        new = {i: o for i, o in after[0].items() if i not in before[0]}
        sandbox.rec("call", call=c, exc=exc, result=result if c["do"] == "order" else isinstance(result, dict),
                    gate=[x for x in book.calls[ncalls:] if x[0] != "setup"], new=new,
                    same=all(after[0].get(i) == o for i, o in before[0].items()), pos=[before[1:], after[1:]])

    options = {"account_no": "1", "runtime_dir": "run", "sync_order": False, "sync_internal": 86400}
    steps = [[], case["calls"]] if case["later"] else [case["calls"]]
    return run_steps(start, steps, options, do)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    recs = [e for e in res.trace if e["k"] == "call"]
    if len(recs) != len(case["calls"]):
        raise RuntimeError("calls lost: %s" % res.output[-1000:])
    seen = set()
    for e in recs:
        c = e["call"]
        ok = verdict(c)
        what = "%s(%s)" % (c["do"], ", ".join("%s=%s %r" % (n, a[0], a[1]) for n, a in c.items() if isinstance(a, list)))
        seen.add(ok)
        if not ok:
            if e["exc"] is None:
                raise Violation("invalid but accepted: %s -> %s" % (what, e["result"]))
            if not e["exc"][2]:
                raise Violation("invalid, raised %s (%s) instead of InvalidParam: %s" % (e["exc"][0], e["exc"][1], what))
            if e["gate"] or e["new"] or not e["same"] or e["pos"][0] != e["pos"][1]:
                raise Violation("refused but not without effect: %s: gate %s, new orders %s, positions %s -> %s" % (
                    what, e["gate"], e["new"], e["pos"][0], e["pos"][1]))
            continue
        if e["exc"]:
            raise Violation("valid but refused with %s (%s): %s" % (e["exc"][0], e["exc"][1], what))
        if c["do"] == "query":
            if not e["result"] or e["gate"] or e["new"] or not e["same"] or e["pos"][0] != e["pos"][1]:
                raise Violation("a query had an effect: %s" % what)
            continue
        if not isinstance(e["result"], str) or not e["result"]:
            raise Violation("a valid order returned %r: %s" % (e["result"], what))
        if [x[0] for x in e["gate"]] != ["order"] or list(e["new"]) != [e["result"]] or not e["same"]:
            raise Violation("a valid order did not reach the trade gate or the orders exactly once: %s: gate %s, new %s" % (what, e["gate"], e["new"]))
    return Outcome(seen == {True, False}, ["invalid"] * (False in seen) + ["valid"] * (True in seen), {"case": case}, n=len(recs))


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
