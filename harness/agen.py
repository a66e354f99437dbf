"""Generators for account operations (JSON-able) and the calls they stand for."""
import datetime

from hypothesis import strategies as st
from .gens import mix

CODES = ["000001.XSHE", "600000.XSHG", "300750.XSHE", "688001.XSHG", "510300.XSHG", "159919.XSHE"]

codes = mix(st.sampled_from(CODES[:3]), st.sampled_from(CODES),
                  st.builds(lambda n, e: "%06d.%s" % (n, e), st.integers(0, 999999), st.sampled_from(["XSHE", "XSHG"])))
quantities = mix(st.integers(1, 10).map(lambda n: n * 100), st.integers(1, 300), st.integers(1, 10 ** 9))
amounts = st.builds(lambda q, s: q * s, quantities, st.sampled_from([1, 1, -1]))
prices = mix(st.integers(1, 500), st.integers(1, 10 ** 7).map(lambda n: n / 100.0), st.integers(1, 10 ** 8).map(
    lambda n: n / 1000.0), st.sampled_from([0.001, 0.01, 9.99, 1e-05, 123456789.125, 0.1 + 0.2, 10.0, 0, 0, 0.0]))
styles = mix(st.none(), st.just(["m"]), st.builds(lambda p: ["m", p], prices), st.builds(lambda p: ["l", p], prices),
                   st.builds(lambda p: ["l", p], prices), st.builds(lambda k, p: [k, p, "derived"], st.sampled_from(["m", "l"]), prices))

BAD_CODES = ["000001", "", "000001.SZ", "000001.XSH", "XSHE", ".XSHE", "00000a.XSHE", "000001XSHE", "000001.xshe", "000001.XSHE ",
             " 000001.XSHE", "000001.XSHG.XSHE", "-00001.XSHE", "0000.1.XSHE", "000001,XSHE", "000001.XSHEX", "AAPL.XNAS"]
BAD_AMOUNTS = [0, 1.0, 100.5, "100", None, -0.0, 0.0, [100], "", 1e3]
BAD_STYLES = ["market", "limit", 5, 10.5, ["x"], {"a": 1}, "class"]
BAD_SIDES = ["LONG", "both", "buy", "Long", "long ", "none", 1, "l"]

# a time of day early enough for all steps of a case to lie on one day
day_starts = st.builds(lambda d, s, us: (datetime.datetime.combine(d, datetime.time()) + datetime.timedelta(
    seconds=s, microseconds=us)).isoformat(timespec="microseconds"),
    st.dates(datetime.date(2023, 1, 1), datetime.date(2029, 12, 1)), st.integers(0, 20 * 3600),
    st.sampled_from([500000, 250000, 1000, 899000, 123456]))


def make_style(g, s):
    if s is None:
        return None
    cls = g["MarketOrderStyle" if s[0] == "m" else "LimitOrderStyle"]
    if len(s) > 2:                   # a class the strategy derived from it
        cls = type("Own" + cls.__name__, (cls,), {})
    return cls(*s[1:2])


def order_args(g, o, positional=False):
    """o = {"code","amount","style","side"(optional)}"""
    kw = {}
    if o.get("style") is not None:
        kw["style"] = make_style(g, o["style"])
    if o.get("side") is not None:
        kw["side"] = o["side"]
    return (o["code"], o["amount"]), kw


def limit_price(o):
    s = o.get("style")
    return s[1] if s and s[0] == "l" else None


def style_price(o):
    s = o.get("style")
    return (s[1] if len(s) > 1 else 0) if s else 0


@st.composite
def orders(draw, sides=(None, None, "long"), code=codes, amount=amounts):
    o = {"code": draw(code), "amount": draw(amount), "style": draw(styles)}
    s = draw(st.sampled_from(sides))
    if s is not None:
        o["side"] = s
    return o


@st.composite
def bad_orders(draw):
    """an order with at least one invalid argument (in the documented sense)"""
    o = draw(orders())
    for what in draw(st.lists(st.sampled_from(["code", "amount", "style", "side"]), min_size=1, max_size=2, unique=True)):
        o[what] = draw(st.sampled_from({"code": BAD_CODES, "amount": BAD_AMOUNTS, "style": BAD_STYLES,
                                        "side": BAD_SIDES}[what]))
        if what == "style":
            o["style"] = ["raw", o["style"]]
    return o
