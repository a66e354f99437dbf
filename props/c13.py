"""C13: a broken or half-written balance export changes nothing and heals by itself."""
import datetime
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C13"
LEVEL = "fault_enumeration"
RULE = ("A case is a sequence of states of the export files (complete, cut at any byte, empty, missing, without the account) before each synchronisation, with a generated instant at which the exporter completes them and generated retry "
        "settings; or, with a custom trade gate, of calls that raise or return incomplete data. After each, the portfolio must be the one of the last complete export - the new one if it was complete in time for a retry - never "
        "a mixture. Every cut position of one small export is enumerated. Non-trivial: a broken export came after a good one.")
ASSUMPTIONS = ["A file is complete when its empty last row is there up to its last separator; a cut inside that row may count as complete.", "Files that do not exist when the synchronisation begins may be left to the next one.",
               "A repair within 2 ms of the last retry may go either way."]
QUICK = 170
THOROUGH = 5000

MS = 1000000


def content(n, nrows):
    """the n-th export: all numbers differ from those of the others"""
    rows = [{"updTime": "093000", "acctType": "UM0", "acct": "9", "exchange": None, "totalAsset": 5, "currentBalance": 5, "enabledBalance": 5, "mktValue": 5},
            {"updTime": "093000", "acctType": "UM0", "acct": "1", "exchange": "SZ", "totalAsset": 6, "currentBalance": 6, "enabledBalance": 6, "mktValue": 6},
            {"updTime": "093000", "acctType": "UM0", "acct": "1", "exchange": None, "totalAsset": 1000 + n, "currentBalance": 310 + 2 * n, "enabledBalance": 300 + n, "mktValue": 690}]
    if nrows == 0:
        rows = rows[2:]
    pos = [{"updTime": "093000", "acctType": "UM0", "acct": "1", "symbol": "%06d.SZ" % (n * 10 + i), "currentQty": 100 + n, "enabledQty": 50 + n, "costPrice": 10 + n, "lastPrice": 11 + n, "mktValue": 1100 + n}
           for i in range(nrows)]
    return rows, pos


def shown(n, nrows):
    return {"total": 1000 + n, "cash": 300 + n, "locked": 10 + n, "long": ["%06d.XSHE" % (n * 10 + i) for i in range(nrows)], "amount": [100 + n] * nrows}


def texts(n, nrows):
    rows, pos = content(n, nrows)
    return {"assetInfo": anxin.csv_text(anxin.ASSET_COLS, rows).encode(), "positionInfo": anxin.csv_text(anxin.POSITION_COLS, pos).encode()}


broken = st.fixed_dictionaries({
    "file": st.sampled_from(["assetInfo", "positionInfo", "both"]), "how": st.sampled_from(["cut", "cut", "cut", "rows", "empty", "missing", "other", "binary"]), "pct": st.integers(0, 999),
    "repair": mix(st.none(), st.integers(1, 2000), st.integers(-30, 30).map(lambda x: ["edge", x])), "piece": st.booleans()})


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        return {"mode": "gate", "start": draw(agen.day_starts), "auto": draw(st.booleans()), "seq": draw(st.lists(st.sampled_from(
            ["good", "good", "raise", "raise_os", "none", "nocash", "nopos", "badside", "nocode", "noamount", "notdict", "poslist", "emptycash", "cashnone", "posnone"]), min_size=2, max_size=7))}
    return {"mode": "files", "start": draw(agen.day_starts), "retry": draw(st.sampled_from([None, None, [3, 0.15], [0, 0.15], [1, 0.5], [5, 0.05], [10, 0.01], [2, 1]])),
            "seq": draw(st.lists(st.tuples(st.sampled_from([0, 1, 1, 2, 3]), mix(st.none(), broken, broken)), min_size=2, max_size=6).map(lambda l: [list(x) for x in l])),
            "background": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def explicit_cases(tier):
    for f, size in (("assetInfo", len(texts(1, 1)["assetInfo"])), ("positionInfo", len(texts(1, 1)["positionInfo"]))):
        for at in range(0, size, 8):
            yield {"mode": "files", "start": "2024-02-28T10:00:00.500000", "retry": [1, 0.15], "background": False,
                   "seq": [[1, None]] + [[1, {"file": f, "how": "at", "pct": p, "repair": None, "piece": False}] for p in range(at, min(at + 8, size))] + [[2, None]]}


def total_ms(case):
    n, w = case["retry"] or [3, 0.15]
    return int(round(n * w * 1000))


def repair_ms(case, b):
    r = b["repair"]
    if isinstance(r, list):
        return max(1, total_ms(case) + r[1])
    return r


def cut(text, b):
    """what is there of the file before it is complete; None: no file"""
    how = b["how"]
    if how == "missing":
        return None
    if how == "empty":
        return b""
    if how == "at":
        return text[:b["pct"]]
    if how == "rows":
        ls = text.splitlines(True)
        return b"".join(ls[:1 + b["pct"] % max(1, len(ls) - 1)])
    if how == "binary":
        return b"\x00" * len(text)
    if how == "other":
        return text.replace(b",1,", b",2,")
    return text[:len(text) * b["pct"] // 1000]


def state(case, n):
    """contents before the n-th synchronisation and whether they are readable: True, False or None (may count as either)"""
    nrows, b = case["seq"][n]
    full = texts(n, nrows)
    if not b:
        return full, True
    out, ok = dict(full), True
    for f in ("assetInfo", "positionInfo"):
        if b["file"] not in (f, "both"):
            continue
        if b["how"] == "other" and f == "positionInfo":
            continue
        c = out[f] = cut(full[f], b)
        if c == full[f]:
            continue
        last_row = len(full[f].rstrip(b",\n")) if False else full[f].rindex(b"\n", 0, len(full[f]) - 1) + 1
        if c is not None and b["how"] in ("cut", "at", "rows") and len(c) > last_row:
            ok = None if ok else ok
        else:
            ok = False
    return out, ok


def simulate(case):
    if case["mode"] == "gate":
        return simulate_gate(case)
    start = sim.un(case["start"])
    day = start.date()
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d)
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "run", "sync_balance": case["background"], "sync_order": False, "sync_internal": 60 if case["background"] else 86400}
    if case["retry"]:
        options["sync_retry_kwargs"] = {"max_attempts": case["retry"][0], "attempt_internal": case["retry"][1]}

    def put(files, how=None):
        for f, c in files.items():
            p = anxin.path(d, f, day)
            if c is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                anxin.write(p, c)

    def do(op, g, ctx, k):
        if op[0] == "sync":
            n = op[1]
            files, ok = state(case, n)
            put(files)
            b = case["seq"][n][1]
            t0 = vt.now()
            if b and b["repair"] is not None:
                full = texts(n, case["seq"][n][0])
                ms = repair_ms(case, b)
                if b["piece"]:
                    vt.at(t0 + datetime.timedelta(milliseconds=ms / 2.0), lambda: put({f: (full[f][:max(len(c or b""), len(full[f]) // 2)] if b["how"] in ("cut", "at", "rows") and c is not None else c)
                                                                                       for f, c in files.items()}) )
                vt.at(t0 + datetime.timedelta(milliseconds=ms), lambda: put(full))
            try:
                g["sync_balance"]()
                err = None
            except Exception as e:
                err = repr(e)
            sandbox.rec("synced", n=n, err=err, view=gate.view_portfolio(ctx), took=vt.now_ns() - vt.to_ns(t0))
        else:
            sandbox.rec("later", n=op[1], view=gate.view_portfolio(ctx))

    steps = [[]]
    for n in range(len(case["seq"])):
        steps.append([["sync", n]])
        if case["background"]:
            steps.append([])
        steps.append([["later", n]])
    return run_steps(start, steps, options, do)


def judge(case, res):
    if case["mode"] == "gate":
        return judge_gate(case, res)
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    cur = [{"total": 0, "cash": 0, "locked": 0, "long": [], "amount": []}]
    syncs = {e["n"]: e for e in res.trace if e["k"] == "synced"}
    laters = {e["n"]: e for e in res.trace if e["k"] == "later"}
    if len(syncs) != len(case["seq"]) or len(laters) != len(case["seq"]):
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    good = nt = healed = False
    for n, (nrows, b) in enumerate(case["seq"]):
        files, ok = state(case, n)
        new = shown(n, nrows)
        if ok:
            allowed = [new]
            good = True
        else:
            nt |= good
            allowed = cur + ([new] if ok is None else [])
            if b["repair"] is not None:
                ms, total = repair_ms(case, b), total_ms(case)
                there = all(c is not None for c in files.values()) and b["how"] != "other"
                if ms < total - 2:
                    allowed = [new] if there else cur + [new]
                    healed |= there
                elif ms <= 2 * total + 2:
                    # the retries of the two files come one after the other
                    allowed = cur + [new]
        e = syncs[n]
        if e["err"]:
            raise Violation("synchronisation %d raised %s" % (n, e["err"]))
        v = brief(e["view"])
        if v not in allowed:
            raise Violation("synchronisation %d (files %s, retries %s, took %.3f s) shows %s, expected %s\n%s" % (
                n, b, case["retry"], e["took"] / 1e9, v, " or ".join(map(str, allowed)), res.output[-600:]))
        cur = [v]
        v = brief(laters[n]["view"])
        allowed = cur
        if case["background"] and (ok or b["repair"] is not None):
            allowed = [new]
        elif case["background"] and ok is None:
            allowed = cur + [new]
        if v not in allowed:
            raise Violation("some time after synchronisation %d (files %s) the account shows %s, expected %s" % (n, b, v, allowed))
        cur = [v]
        good |= v == new
    return Outcome(nt, ["healed within the retries"] * healed + ["files"], {"case": case})


def brief(v):
    return {"total": v["total"], "cash": v["cash"], "locked": v["locked"], "long": sorted(v["long"]), "amount": [v["long"][c]["amount"] for c in sorted(v["long"])]}


# ---------------------------------------------------------------- failing custom gate
def gate_balance(n, what):
    cash = {"total_asset": 1000 + n, "available_cash": 300 + n, "locked_cash": 10 + n}
    p = {"code": "%06d.XSHE" % n, "amount": 100 + n, "available_amount": 50, "avg_cost": 10, "side": "long", "last_price": 10, "position_value": 1000}
    q = dict(p, code="%06d.XSHG" % n)
    r = {"cash": cash, "positions": [p, q]}
    if what == "none":
        return None
    if what == "nocash":
        del r["cash"]
    elif what == "nopos":
        del r["positions"]
    elif what == "badside":
        q["side"] = "up"
    elif what == "nocode":
        del q["code"]
    elif what == "noamount":
        del q["available_amount"]
    elif what == "notdict":
        return [1, 2]
    elif what == "poslist":
        r["positions"] = [p, 5]
    elif what == "cashnone":
        r["cash"] = None
    elif what == "posnone":
        r["positions"] = None
    elif what == "emptycash":
        r["cash"] = 7
    return r


def simulate_gate(case):
    start = sim.un(case["start"])
    book = {}

    def before():
        book["b"] = gate.install()

    def do(op, g, ctx, k):
        n, what = op[1], case["seq"][op[1]]
        b = book["b"]
        b.fail.pop("sync_balance", None)
        if what.startswith("raise"):
            b.fail["sync_balance"] = RuntimeError("down") if what == "raise" else OSError(5, "io")
        b.raw_balance = gate_balance(n, what) if what != "none" else 0
        if op[0] == "sync":
            try:
                err = None
                g["sync_balance"]()
            except Exception as e:
                err = repr(e)
            sandbox.rec("synced", n=n, err=err, view=gate.view_portfolio(ctx))
        elif op[0] == "view":
            sandbox.rec("synced", n=n, err=None, view=gate.view_portfolio(ctx))

    steps = [[]]
    for n in range(len(case["seq"])):
        steps += [[["put", n]], [["view", n]]] if case["auto"] else [[["sync", n]]]
    return run_steps(start, steps, {"account_no": "1", "runtime_dir": "run", "sync_order": False, "sync_balance": case["auto"], "sync_internal": 20}, do, before=before)


def judge_gate(case, res):
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    syncs = {e["n"]: e for e in res.trace if e["k"] == "synced"}
    if len(syncs) != len(case["seq"]):
        raise Violation("the strategy did not get through its callbacks\n%s" % res.output[-1500:])
    cur, good, nt = None, False, False
    for n, what in enumerate(case["seq"]):
        e = syncs[n]
        if e["err"]:
            raise Violation("synchronisation %d (%s) raised %s" % (n, what, e["err"]))
        v = brief(e["view"])
        if what == "good":
            cur = {"total": 1000 + n, "cash": 300 + n, "locked": 10 + n, "long": ["%06d.XSHE" % n, "%06d.XSHG" % n], "amount": [100 + n] * 2}
            good = True
        else:
            nt |= good
            if cur is None:
                cur = {"total": 0, "cash": 0, "locked": 0, "long": [], "amount": []} if not case["auto"] else v
        if v != cur:
            raise Violation("synchronisation %d (the trade gate: %s) shows %s, expected %s" % (n, what, v, cur))
    return Outcome(nt, ["gate"], {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
