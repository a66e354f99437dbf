"""C12: cash and positions shown are the account's in the latest complete export."""
import datetime
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C12"
LEVEL = "exploration"
RULE = ("A case is a sequence of complete exports (asset and position rows of the account, of its exchanges and of other accounts, in any order, with and without zero values, formats of numbers, extra columns, "
        "line ends) for generated account numbers; after each synchronisation (called, at start or in the background) the portfolio is compared with the rows. "
        "Non-trivial: the account had a position and the export had rows of another account or of an exchange, or a position disappeared.")
ASSUMPTIONS = ["Numbers are compared with half a unit of the 4th (3rd for prices) decimal place.", "Amounts are whole numbers below 2**53."]
QUICK = 200
THOROUGH = 6000

ACCTS = ["1", "10", "0012", "12", "88001234", "A-1", "100000000000000001", 12345]
money = mix(st.integers(0, 10 ** 7), st.integers(-10 ** 6, 10 ** 13).map(lambda n: n / 10000.0), st.sampled_from([0, 0.0, 0.1, 1e9, 1234567.89012]))
price = mix(st.integers(0, 500), st.integers(0, 10 ** 8).map(lambda n: n / 10000.0), st.sampled_from([0, 10.0005, 9.9995, 0.001]))
qty = mix(st.integers(0, 20).map(lambda n: n * 100), st.integers(0, 10 ** 9), st.just(0))


@st.composite
def exports(draw, own):
    others = draw(st.lists(st.sampled_from([str(a) for a in ACCTS] + ["11", "1.0", "01"]).filter(lambda a: a != str(own)), max_size=2, unique=True))
    assets = []
    for a in [str(own)] + others:
        for ex in [None] + draw(st.lists(st.sampled_from(["SZ", "SH", "HK", "1"]), max_size=2, unique=True)):
            assets.append({"acct": a, "exchange": ex, "totalAsset": draw(money), "currentBalance": draw(money), "enabledBalance": draw(money), "mktValue": draw(money)})
    pos = []
    for a in [str(own), str(own)][:draw(st.integers(0, 2)) or 1] + others:
        for c in draw(st.lists(agen.codes, max_size=4, unique=True)):
            if any(p["acct"] == a and p["symbol"] == anxin.symbol(c) for p in pos):
                continue
            q = draw(qty)
            pos.append({"acct": a, "symbol": anxin.symbol(c), "currentQty": q, "enabledQty": draw(mix(st.just(q), st.integers(0, q), st.just(0))),
                        "costPrice": draw(price), "lastPrice": draw(price), "mktValue": draw(money)})
    many = [0, 0]
    if draw(st.integers(0, 9)) == 0:        # a large export, also of the own account
        many = [draw(st.sampled_from([0, 300, 2000])), draw(st.sampled_from([0, 30, 300]))]
    return {"assets": draw(st.permutations(assets)), "positions": draw(st.permutations(pos)), "many": many}


@st.composite
def cases(draw, tier):
    own = draw(st.sampled_from(ACCTS))
    return {"start": draw(agen.day_starts), "account": own, "exports": draw(st.lists(exports(own), min_size=1, max_size=4)), "mode": draw(st.sampled_from(["call", "call", "background", "start"])),
            "fmt": draw(st.sampled_from(["str", "%.2f", "%.4f", "%.6f"])), "crlf": draw(st.booleans()), "extra": draw(st.booleans()), "cols": draw(st.permutations(range(8))),
            "qtyfmt": draw(st.sampled_from(["%d", "%d", "%d.0"])), "how": draw(st.sampled_from(["replace", "write"])), "ask": draw(st.lists(agen.codes, max_size=2))}


def strategy(tier):
    return cases(tier)


def num(x, fmt):
    if fmt == "str":
        t = repr(x)
        return "%.10f" % x if "e" in t else t
    return fmt % x


def texts(case, e):
    """the two files and what the account must show: {...}"""
    f = case["fmt"]
    acols, pcols = list(anxin.ASSET_COLS), list(anxin.POSITION_COLS)
    rows = []
    shown = {"long": {}}
    other, mine = e.get("many", [0, 0])
    apart = [{"acct": "77%d" % i, "exchange": None, "totalAsset": i, "currentBalance": i, "enabledBalance": i, "mktValue": i} for i in range(other)]
    at = len(apart) // 2
    held = [{"acct": "77%d" % i, "symbol": anxin.symbol("%06d.XSHE" % i), "currentQty": 100, "enabledQty": 100, "costPrice": 1, "lastPrice": 1, "mktValue": 100} for i in range(other)]
    held += [{"acct": str(case["account"]), "symbol": anxin.symbol("9%05d.XSHG" % i), "currentQty": 100 * (i + 1), "enabledQty": 100 * i, "costPrice": 1, "lastPrice": i, "mktValue": 100 * i} for i in range(mine) if not any(p["symbol"] == anxin.symbol("9%05d.XSHG" % i) for p in e["positions"])]
    for a in apart[:at] + e["assets"] + apart[at:]:
        r = dict(a, updTime="093000123", acctType="UM0")
        for c in ("totalAsset", "currentBalance", "enabledBalance", "mktValue"):
            r[c] = num(a[c], f)
        if a["acct"] == str(case["account"]) and a["exchange"] is None:
            v = {c: float(r[c]) for c in ("totalAsset", "currentBalance", "enabledBalance")}
            shown.update(total=v["totalAsset"], cash=v["enabledBalance"], locked=v["currentBalance"] - v["enabledBalance"])
        rows.append(r)
    prows = []
    for p in held[::2] + e["positions"] + held[1::2]:
        r = dict(p, updTime="093000123", acctType="UM0")
        for c in ("costPrice", "lastPrice", "mktValue"):
            r[c] = num(p[c], f)
        for c in ("currentQty", "enabledQty"):
            r[c] = case["qtyfmt"] % p[c]
        prows.append(r)
        if p["acct"] == str(case["account"]) and p["currentQty"]:
            shown["long"][anxin.code(p["symbol"])] = {"code": anxin.code(p["symbol"]), "amount": p["currentQty"], "closeable": p["enabledQty"], "locked": p["currentQty"] - p["enabledQty"],
                                                      "avg_cost": float(r["costPrice"]), "last_price": float(r["lastPrice"]), "value": float(r["mktValue"]), "side": "long"}
    if case["extra"]:
        acols, pcols = acols + ["remark"], pcols + ["name", "remark"]
        for r in rows + prows:
            r["remark"], r["name"] = "备注", "平安银行"
    acols = [acols[i] for i in case["cols"] if i] + [acols[0]] + acols[8:] if case["extra"] else acols
    nl = "\r\n" if case["crlf"] else "\n"
    return anxin.csv_text(acols, rows).replace("\n", nl), anxin.csv_text(pcols, prows).replace("\n", nl), shown


def simulate(case):
    start = sim.un(case["start"])
    day = start.date()
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d)
    bg = case["mode"] == "background"
    options = {"account_no": case["account"], "order_dir": d, "runtime_dir": "run", "sync_balance": case["mode"] != "call", "sync_order": False, "sync_internal": 15 if bg else 86400}

    def put(n):
        for kind, text in zip(("assetInfo", "positionInfo"), texts(case, case["exports"][n])):
            (anxin.replace if case["how"] == "replace" else anxin.write)(anxin.path(d, kind, day), text)

    def do(op, g, ctx, k):
        if op[0] == "put":
            put(op[1])
        elif op[0] == "sync":
            g["sync_balance"]()
        else:
            pf = ctx.portfolio
            ask = {c: (c in pf.long_positions, gate.view_position(pf.positions[c]), gate.view_position(pf.short_positions[c])) for c in case["ask"]}
            sandbox.rec("view", n=op[1], v=gate.view_portfolio(ctx), ask=ask, same=sorted(pf.positions) == sorted(pf.long_positions))

    steps = [[]]
    if case["mode"] == "start":
        steps.append([["view", 0]])
    for i in range(len(case["exports"])):
        if bg:
            steps += [[["put", i]], [["view", i]]]
        else:
            steps.append([["put", i], ["sync"], ["view", i]])
    before = (lambda: put(0)) if case["mode"] == "start" else None
    return run_steps(start, steps, options, do, before=before)


def close(a, b, digits):
    return isinstance(a, (int, float)) and abs(a - b) <= 0.50001 * 10 ** -digits + 1e-9 * abs(b)


def judge(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    views = [e for e in res.trace if e["k"] == "view"]
    want_n = len(case["exports"]) + (case["mode"] == "start")
    if len(views) != want_n:
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    others = gone = held = False
    prev = set()
    for e in views:
        exp = case["exports"][e["n"]]
        want = texts(case, exp)[2]
        got = e["v"]
        for k in ("total", "cash", "locked"):
            if not close(got[k], want[k], 4):
                raise Violation("synchronisation %d shows %s=%r, the export has %r: %s" % (e["n"], k, got[k], want[k], exp["assets"]))
        if set(got["long"]) != set(want["long"]):
            raise Violation("synchronisation %d shows the positions %s, the export has %s" % (e["n"], sorted(got["long"]), sorted(want["long"])))
        if got["short"]:
            raise Violation("synchronisation %d shows short positions %s" % (e["n"], got["short"]))
        for c, w in want["long"].items():
            g = got["long"][c]
            for k, x in w.items():
                digits = {"avg_cost": 3, "last_price": 3, "value": 4}.get(k)
                if not (close(g[k], x, digits) if digits else g[k] == x):
                    raise Violation("synchronisation %d shows %s of %s as %r, the export has %r" % (e["n"], k, c, g[k], x))
            if g["code2"] != c:
                raise Violation("position %s has the code %s" % (c, g["code2"]))
        s = sum(w["value"] for w in want["long"].values())
        if not close(got["value"], s, 4 - len(want["long"]) * 0.3):
            raise Violation("synchronisation %d shows a position value of %r, the positions are worth %r" % (e["n"], got["value"], s))
        if not e["same"]:
            raise Violation("positions and long_positions differ")
        for c, (held_, p, sp) in e["ask"].items():
            empty = {"code": c, "amount": 0, "closeable": 0, "avg_cost": 0, "last_price": 0, "value": 0, "locked": 0, "code2": c}
            if held_ != (c in want["long"]):
                raise Violation("position %s: 'in' says %s, the export has %s" % (c, held_, sorted(want["long"])))
            if not held_ and {k: p[k] for k in empty} != empty:
                raise Violation("the position of %s, which is not held, reads as %s" % (c, p))
            if {k: sp[k] for k in empty} != empty:
                raise Violation("the short position of %s, which is not held, reads as %s" % (c, sp))
        others |= any(a["acct"] != str(case["account"]) or a["exchange"] for a in exp["assets"])
        held |= bool(want["long"])
        gone |= bool(prev - set(want["long"]))
        prev = set(want["long"])
    return Outcome(held and (others or gone), ["a position disappeared"] * gone + ["rows of others"] * others + ["zero cash"] * any(not a["enabledBalance"] for x in case["exports"] for a in x["assets"])
                   + [case["mode"]], {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
