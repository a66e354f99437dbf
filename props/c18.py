"""C18: an order survives being saved and loaded."""
import datetime
import json

from hypothesis import strategies as st

from harness import agen, sandbox, sim
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C18"
LEVEL = "exploration"
RULE = ("A case is a list of orders with generated fields (all states, sides, actions and styles, enumeration members or their names, times with and without microseconds as objects or text, finite numbers, any text); each is saved, "
        "put through JSON text, loaded, compared field by field with the generated values and saved again. Non-trivial: an optional field was present.")
ASSUMPTIONS = ["Prices and amounts are finite numbers."]
QUICK = 250
THOROUGH = 20000

STATUSES = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
number = mix(st.integers(-10 ** 9, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0, 0.0, 0.1, 1e-9, 12345678.9]), agen.prices)
text = mix(st.text(st.characters(exclude_categories=["Cs"]), max_size=20), st.sampled_from(["", "资金不足", "a\"b\\n", "x\ny", "\x00", "😀"]))
times = mix(st.datetimes(datetime.datetime(1000, 1, 1), datetime.datetime(9999, 12, 31)), st.datetimes(datetime.datetime(2020, 1, 1), datetime.datetime(2030, 1, 1)).map(
    lambda t: t.replace(microsecond=0)), st.datetimes(datetime.datetime(2020, 1, 1), datetime.datetime(2030, 1, 1))).map(sim.iso)
orders = st.fixed_dictionaries({
    "code": mix(agen.codes, text), "price": number, "amount": mix(st.integers(0, 10 ** 12), number), "action": st.sampled_from(["open", "close"]), "order_id": mix(
        st.integers(0, 2 ** 32 - 1).map(str), text), "status": st.sampled_from(STATUSES), "style": st.sampled_from(["market", "limit"]), "side": st.sampled_from(["long", "short"]), "create_time": times,
    "enum": st.booleans(), "text_times": st.booleans(),
    "opt": st.fixed_dictionaries({}, optional={"entrust_time": times, "confirm_id": text, "filled_amount": st.integers(0, 10 ** 9), "canceled_amount": st.integers(0, 10 ** 9), "deal_balance": number,
                                               "avg_cost": mix(number, st.none()), "commission": number, "err_msg": text}),
    "reject": mix(st.none(), st.none(), text)})

DEFAULTS = {"entrust_time": None, "confirm_id": None, "filled_amount": 0, "canceled_amount": 0, "deal_balance": 0, "avg_cost": None, "commission": 0, "err_msg": ""}
FIELDS = ["code", "price", "amount", "action", "order_id", "status", "style", "side", "create_time"] + list(DEFAULTS)


def strategy(tier):
    return st.fixed_dictionaries({"orders": st.lists(orders, min_size=1, max_size=8)})


def fields(o):
    out = {}
    for f in FIELDS:
        v = getattr(o, f)
        out[f] = sim.iso(v) if isinstance(v, datetime.datetime) else v.value if f in ("action", "status", "side", "style") else v
    out["style_price"] = o.style.price
    return out


def simulate(case):
    from jqtrade.account.order import LimitOrderStyle, MarketOrderStyle, Order, OrderAction, OrderSide, OrderStatus
    out = []
    for c in case["orders"]:
        kw = {f: c[f] for f in ("code", "price", "amount", "action", "order_id", "status", "style", "side")}
        kw.update(c["opt"])
        for f in ("create_time", "entrust_time"):
            v = c.get(f) or c["opt"].get(f)
            if v:
                t = datetime.datetime.fromisoformat(v)
                kw[f] = t if not c["text_times"] else "%04d-%s" % (t.year, t.strftime("%m-%d %H:%M:%S") + (".%06d" % t.microsecond if t.microsecond else ""))
        if c["enum"]:
            kw.update(action=OrderAction[c["action"]], status=OrderStatus[c["status"]], side=OrderSide[c["side"]], style=(LimitOrderStyle if c["style"] == "limit" else MarketOrderStyle)(c["price"]))
        o = Order(**kw)
        if c["reject"] is not None:
            o.on_rejected(c["reject"])
        a = fields(o)
        t1 = json.dumps(o.json(), sort_keys=True)
        o2 = Order.load(**json.loads(t1))
        t2 = json.dumps(o2.json(), sort_keys=True)
        out.append((a, fields(o2), t1, t2, o == o2, o.has_finished(), o2.has_finished()))
    return out


def same(a, b):
    return type(a) is type(b) and (a == b)


def judge(case, res):
    if res.status != "ok":
        raise Violation("saving or loading %s %s\n%s" % (case, res.describe(), res.output[-800:]))
    nt = False
    for c, (a, b, t1, t2, eq, f1, f2) in zip(case["orders"], res.value):
        want = {f: c[f] for f in FIELDS if f in c}
        want.update({f: c["opt"].get(f, d) for f, d in DEFAULTS.items()}, style_price=c["price"])
        if c["reject"] is not None:
            want.update(status="rejected", err_msg=c["reject"])
        for f in want:
            if not same(a[f], want[f]):
                raise Violation("an order made with %s=%r has %r" % (f, want[f], a[f]))
            if not same(b[f], want[f]):
                raise Violation("the field %s of an order is %r after saving and loading, it was %r: %s" % (f, b[f], want[f], t1))
        if t1 != t2:
            raise Violation("saved again, the order gives another text: %s, before %s" % (t2, t1))
        if not eq or f1 != f2 or f1 != (want["status"] in ("filled", "partly_canceled", "canceled", "rejected")):
            raise Violation("the loaded order is not equal to the saved one: %s" % t1)
        nt |= bool(c["opt"])
    return Outcome(nt, ["rejected"] * any(c["reject"] is not None for c in case["orders"]), n=len(case["orders"]))


def guarded(case):
    import traceback
    try:
        return simulate(case)
    except Exception:
        sandbox.sys.stdout.write(traceback.format_exc())
        sandbox.sys.stdout.flush()
        sandbox.os._exit(3)


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(guarded, (case,), d))
    finally:
        env.drop(d)
