"""C09: the broker's order reports are mirrored exactly, however the report files are written."""
import datetime
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C09"
LEVEL = "exploration"
RULE = ("A case is a set of orders and two report files made of valid lines about own and foreign orders and of malformed, blank, torn, undecodable and repeated header lines; the files grow in "
        "pieces cut at any byte, with a synchronisation after each piece (called by the strategy or in the background); in some cases the malformed lines are corrected afterwards, "
        "and taken over then: by the next synchronisation with ignore_error_line off, after a restart otherwise. After each synchronisation, every own order is compared with a fold over the complete lines "
        "so far; a line still being written may already count only when all its fields are there. Non-trivial: at least two states of own orders "
        "were reported and a cut fell inside a line or a malformed line lay before a valid one.")
ASSUMPTIONS = ["Report texts contain no comma or line break; an order is either rejected through the result file or reported in the update file.",
               "With ignore_error_line switched off, a malformed line may hold up everything behind it until it is corrected.", "Encodings that contain ASCII (utf-8, gbk)."]
QUICK = 220
THOROUGH = 6000

TEXTS = ["", "ok", "资金不足", "非交易时间 不能委托", "x" * 300, "废单[251005]", "a\tb", "é"]
num4 = mix(st.integers(0, 10 ** 6), st.integers(0, 10 ** 10).map(lambda n: n / 10000.0), st.sampled_from([0.00005, 123.45678, 1e7, 0.1]))

good = st.fixed_dictionaries({
    "k": st.just("upd"), "o": st.integers(0, 4), "status": st.sampled_from(list("01234578")), "filled": st.integers(0, 10 ** 6), "avg": num4,
    "amt": num4, "cancel": st.integers(0, 10 ** 6), "no": st.sampled_from(["", "B1", "0007", "非1"]), "text": st.sampled_from(TEXTS),
    "time": st.sampled_from(["093000", "000000", "145959", "235959", "112233"]), "pad": st.sampled_from(["", "", " "])})
own_bad = st.fixed_dictionaries({"k": st.just("bad"), "o": st.integers(0, 4), "how": st.sampled_from(
    ["status9", "statusempty", "statusx", "filledabc", "filledempty", "amtx", "avgempty", "cancelx", "datex", "timex", "short", "short1", "long"])})
junk = mix(
    st.just({"k": "blank", "t": ""}), st.just({"k": "blank", "t": "   "}), st.just({"k": "header"}), st.builds(lambda t: {"k": "junk", "t": t}, st.text(
        st.characters(codec="utf-8", exclude_characters="\n\r\x85\u2028\u2029", exclude_categories=["Cs"]), max_size=30)),
    st.builds(lambda n: {"k": "junk", "t": "," * n}, st.integers(1, 25)), st.builds(lambda b: {"k": "raw", "h": b.hex()}, st.binary(max_size=20)),
    st.just({"k": "raw", "h": "00" * 40}), st.builds(lambda n: {"k": "bulk", "n": n}, st.sampled_from([1, 3, 400])))
calm = st.sampled_from([{"k": "blank", "t": ""}, {"k": "blank", "t": "   "}, {"k": "header"}])
foreign = st.builds(lambda g: dict(g, k="foreign"), good)
result = st.fixed_dictionaries({"k": st.just("res"), "o": st.integers(0, 4), "type": st.sampled_from(["1", "1", "2"]), "status": st.sampled_from(["0", "1", "1"]),
                                "text": st.sampled_from(TEXTS), "code": st.sampled_from(["0", "-5", ""])})
res_bad = st.fixed_dictionaries({"k": st.just("resbad"), "o": st.integers(0, 4), "how": st.sampled_from(["short", "type", "status", "long"])})
cut = mix(st.tuples(st.just("end"), st.integers(0, 14), st.just(0)), st.tuples(st.just("nonl"), st.integers(0, 14), st.just(0)),
                st.tuples(st.just("pct"), st.integers(0, 14), st.integers(1, 99)), st.tuples(st.just("comma"), st.integers(0, 14), st.integers(1, 20))).map(list)


@st.composite
def cases(draw, tier):
    clean = draw(st.integers(0, 3)) == 0
    header = draw(st.sampled_from([True, True, False]))
    fix = not clean and draw(st.integers(0, 2)) == 0
    n = draw(st.integers(1, 4))
    upd = draw(st.lists(mix(good, good, good, good, foreign, calm) if clean else mix(good, good, good, good, foreign, own_bad, junk), min_size=draw(st.sampled_from([1, 4, 7])), max_size=12))
    rejected = draw(st.lists(st.integers(0, n - 1), max_size=draw(st.sampled_from([0, 1, 1, n])), unique=True))
    cuts = [list(x) for x in draw(st.lists(st.tuples(cut, cut), min_size=draw(st.sampled_from([1, 3])), max_size=7))]
    mine = [i for i, l in enumerate(upd) if l["k"] == "upd"]
    if mine and draw(st.booleans()):        # two reports that differ in one field, and a synchronisation between them
        i = draw(st.sampled_from(mine))
        f, v = draw(st.sampled_from([("no", "N77"), ("text", "改"), ("time", "101010"), ("status", "1"), ("filled", 177), ("avg", 17.7), ("amt", 177.7), ("cancel", 17)]))
        upd.insert(i + 1, dict(upd[i], **{f: v}))
        at = draw(st.integers(0, len(cuts) - 1))
        for c in cuts[:at]:
            c[0] = [c[0][0], c[0][1] % (i + 1), c[0][2]]
        cuts[at][0] = ["end", i + (1 if header else 0), 0]
    res = draw(st.lists(mix(result, result, calm) if clean else mix(result, result, junk, res_bad), max_size=6))
    return {"start": draw(agen.day_starts), "orders": draw(st.lists(agen.orders(), min_size=n, max_size=n)), "updates": upd, "results": res,
            "rejected": rejected, "cuts": cuts,
            "enc": draw(st.sampled_from([None, "utf-8", "gbk"])), "crlf": draw(st.booleans()), "mode": draw(st.sampled_from(["call", "call", "background"])),
            "late_files": draw(st.booleans()), "header": header, "strict": draw(st.booleans()) if clean or fix else False,
            "again": draw(st.booleans()), "fix": fix}


def strategy(tier):
    return cases(tier)


def num(x):
    return str(x)


def lines(case, ids, day, fixed=False):
    """-> {"orderUpdate": [(bytes with line end, effect)], "execResult": ...}; effect = (order id, state) or None; fixed: malformed lines are corrected"""
    enc = case["enc"] or "utf-8"
    nl = b"\r\n" if case["crlf"] else b"\n"
    rej = set(i % len(ids) for i in case["rejected"])
    out = {"orderUpdate": [], "execResult": []}

    def junk_line(l, header):
        if l["k"] == "blank":
            return l["t"].encode()
        if l["k"] == "header":
            return header.encode()
        if l["k"] == "junk":
            return l["t"].encode(enc, "replace")
        return bytes.fromhex(l["h"]).replace(b"\n", b"?").replace(b"\r", b"?")

    if case["header"]:
        out["orderUpdate"].append((anxin.UPDATE_HEADER.encode() + nl, None))
        out["execResult"].append((anxin.RESULT_HEADER.encode() + nl, None))
    for l in case["updates"]:
        k = l["k"]
        if k in ("upd", "foreign"):
            i = l["o"] % len(ids)
            mine = k == "upd" and i not in rej
            oid = ids[i] if mine else "9%d" % l["o"]
            o = case["orders"][i]
            p = l["pad"]
            f = anxin.update_line(day, oid, sym=anxin.symbol(o["code"]), side=1 if o["amount"] > 0 else 2, status=p + l["status"], qty=abs(o["amount"]),
                                  filled=num(l["filled"]) + p, avg=num(l["avg"]), amt=p + num(l["amt"]), cancel=num(l["cancel"]), no=l["no"], text=l["text"] + p, time=l["time"])
            eff = None
            if mine:
                eff = (oid, {"status": anxin.STATUS[l["status"]], "filled_amount": l["filled"], "canceled_amount": l["cancel"], "avg_price": round(float(l["avg"]), 3),
                             "deal_balance": round(float(l["amt"]), 4), "err_msg": l["text"].strip(), "confirm_id": l["no"],
                             "entrust_time": "%s %s" % (day.isoformat(), ":".join((l["time"][:2], l["time"][2:4], l["time"][4:])))})
            out["orderUpdate"].append((f.encode(enc, "replace") + nl, fix_enc(eff, enc)))
        elif k == "bad":
            i = l["o"] % len(ids)
            kw = {"status": "2", "filled": 77, "amt": 77.5, "avg": 7.75, "cancel": 7, "no": "BAD", "text": "BAD"}
            h = l["how"]
            if fixed:
                if i in rej:
                    continue
                kw = {"status": "7", "filled": 88, "amt": 88.5, "avg": 8.875, "cancel": 8, "no": "FIXED", "text": "FIXED", "time": "111111"}
                out["orderUpdate"].append((anxin.update_line(day, ids[i], **kw).encode(enc) + nl, (ids[i], {
                    "status": anxin.STATUS["7"], "filled_amount": 88, "canceled_amount": 8, "avg_price": 8.875, "deal_balance": 88.5, "err_msg": "FIXED", "confirm_id": "FIXED",
                    "entrust_time": "%s 11:11:11" % day.isoformat()})))
                continue
            if h.startswith("status"):
                kw["status"] = {"9": "9", "empty": "", "x": "x"}[h[6:]]
            elif h.startswith("filled"):
                kw["filled"] = h[6:] if h != "filledempty" else ""
            elif h == "amtx":
                kw["amt"] = "n/a"
            elif h == "avgempty":
                kw["avg"] = ""
            elif h == "cancelx":
                kw["cancel"] = "1x"
            elif h == "timex":
                kw["time"] = "xx"
            f = anxin.update_line(day, ids[i], **kw)
            parts = f.split(",")
            if h == "datex":
                parts[1] = "20x"
            elif h == "short":
                parts = parts[:18]
            elif h == "short1":
                parts = parts[:19]
            elif h == "long":
                parts += ["y", "z"]
            out["orderUpdate"].append((",".join(parts).encode(enc) + nl, None))
        elif k == "bulk":
            out["orderUpdate"] += [(anxin.update_line(day, "8%d" % j).encode() + nl, None) for j in range(l["n"])]
        elif not fixed or k not in ("junk", "raw"):
            out["orderUpdate"].append((junk_line(l, anxin.UPDATE_HEADER) + nl, None))
    for l in case["results"]:
        k = l["k"]
        if k == "res":
            i = l["o"] % len(ids)
            if i not in rej and l["type"] == "1" and l["status"] == "1":
                oid = "7%d" % i
            else:
                oid = ids[i]
            eff = None
            if oid == ids[i] and l["type"] == "1" and l["status"] == "1":
                eff = (oid, {"status": "rejected", "err_msg": l["text"].strip()})
            f = anxin.result_line(oid, l["type"], l["status"], l["text"], l["code"])
            out["execResult"].append((f.encode(enc, "replace") + nl, fix_enc(eff, enc)))
        elif k == "resbad":
            i = l["o"] % len(ids)
            parts = anxin.result_line(ids[i], "1", "1", "BAD", "1").split(",")
            if fixed and l["how"] in ("short", "long"):
                continue
            if l["how"] == "short":
                parts = parts[:5]
            elif l["how"] == "type":
                parts[1] = "9"
            elif l["how"] == "status":
                parts[3] = "x"
            else:
                parts += ["y", "z"]
            out["execResult"].append((",".join(parts).encode() + nl, None))
        elif k == "bulk":
            out["execResult"] += [(anxin.result_line("8%d" % j, "1", "1", "x").encode() + nl, None) for j in range(l["n"])]
        elif not fixed or k not in ("junk", "raw"):
            out["execResult"].append((junk_line(l, anxin.RESULT_HEADER) + nl, None))
    return out


def fix_enc(eff, enc):
    if eff:
        for k in ("err_msg", "confirm_id"):
            if k in eff[1]:
                eff[1][k] = eff[1][k].encode(enc, "replace").decode(enc)
    return eff


def positions(case, ls):
    """byte lengths of the two files at each synchronisation, growing; the last is the whole"""
    out, lo = [], {"orderUpdate": 0, "execResult": 0}
    for pair in case["cuts"]:
        now = {}
        for kind, (how, i, n) in zip(("orderUpdate", "execResult"), pair):
            L = ls[kind]
            if not L:
                now[kind] = 0
                continue
            i %= len(L)
            base = sum(len(x[0]) for x in L[:i])
            b = L[i][0]
            if how == "end":
                p = base + len(b)
            elif how == "nonl":
                p = base + len(b.rstrip(b"\r\n"))
            elif how == "pct":
                p = base + len(b) * n // 100
            else:
                at = -1
                for _ in range(n):
                    q = b.find(b",", at + 1)
                    if q < 0:
                        break
                    at = q
                p = base + at + 1
            if b.count(b",") > len(anxin.RESULT_HEADER.split(",") if kind == "execResult" else anxin.UPDATE_COLS) - 1 and p > base:
                p = base + len(b)        # up to its surplus columns, a line with too many of them is a good one
            lo[kind] = now[kind] = max(lo[kind], p)
        out.append(now)
    out.append({k: sum(len(x[0]) for x in v) for k, v in ls.items()})
    return out


def view(g):
    from jqtrade.scheduler.context import Context
    v = gate.view_orders(g)
    for oid, o in Context.get_instance().account.orders.items():
        v[oid]["confirm_id"] = o.confirm_id
    return v


def simulate(case, ids=None):
    start = sim.un(case["start"])
    day = start.date()
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d, exist_ok=True)
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "run", "sync_balance": False, "sync_order": case["mode"] == "background", "sync_internal": 15}
    if case["enc"]:
        options["file_encoding"] = case["enc"]
    if case["strict"]:
        options["ignore_error_line"] = False
    st_ = {}
    paths = {k: anxin.path(d, k, day) for k in ("orderUpdate", "execResult")}
    if not case["late_files"] and not ids:
        for p in paths.values():
            anxin.write(p, "")

    def do(op, g, ctx, k):
        if op[0] == "place":
            ids = []
            for o in case["orders"]:
                args, kw = agen.order_args(g, o)
                ids.append(g["order"](*args, **kw))
            sandbox.rec("ids", ids=ids, view=view(g))
            st_["ids"] = ids
            ls = lines(case, ids, day)
            st_["data"] = {k: b"".join(x[0] for x in v) for k, v in ls.items()}
            st_["pos"] = positions(case, ls)
            st_["at"] = {"orderUpdate": 0, "execResult": 0}
        elif op[0] == "grow":
            now = st_["pos"][op[1]]
            for kind in ("orderUpdate", "execResult"):
                anxin.write(paths[kind], st_["data"][kind][st_["at"][kind]:now[kind]], "ab")
                st_["at"][kind] = now[kind]
        elif op[0] == "fix":
            for kind, v in lines(case, st_["ids"], day, True).items():
                anxin.write(paths[kind], b"".join(x[0] for x in v))
        elif op[0] == "sync":
            g["sync_orders"]()
        else:
            sandbox.rec("check", n=op[1], view=view(g))

    bg = case["mode"] == "background"
    n = len(case["cuts"]) + 1
    if ids:
        st_["ids"] = ids
        start += datetime.timedelta(minutes=30)
        return run_steps(start, [[], [["sync"]] if not bg else [], [["check", n]]], options, do)
    steps = [[], [["place"]]]
    for i in range(n):
        s = [["grow", i]] + ([] if bg else [["sync"]] + ([["sync"]] if case["again"] else []) + [["check", i]])
        steps.append(s)
        if bg:
            steps.append([["check", i]])
    if case["fix"]:
        steps += [[["fix"]] + ([["sync"], ["check", n]] if case["strict"] and not bg else [])] + ([[["check", n]]] if case["strict"] and bg else [])
    return run_steps(start, steps, options, do)


def judge(case, res, d):
    if res.status == "hang":
        raise Violation("the synchronisation spins for ever\n%s" % res.output[-800:])
    if res.status != "ok" or res.value["end"] != "return":
        raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = res.trace
    first = [e for e in tr if e["k"] == "ids"][0]
    ids = first["ids"]
    if None in ids:
        raise Violation("placing a valid order failed: %s" % case["orders"])
    day = sim.un(case["start"]).date()
    ls = lines(case, ids, day)
    pos = positions(case, ls)
    base = {oid: v for oid, v in first["view"].items()}
    seen_states, inner, nbad = 0, False, False
    checks = {e["n"]: e["view"] for e in tr if e["k"] == "check"}
    held = case["fix"] and case["strict"]
    fixed = checks.pop(len(pos), None)
    if len(checks) != len(pos) or (held and fixed is None):
        raise Violation("the strategy did not get through its callbacks: %s\n%s" % (res.value, res.output[-1500:]))
    for n, p in enumerate(pos):
        want = {oid: dict(base[oid]) for oid in ids}
        maybe, past = {}, {oid: [want[oid].copy()] for oid in ids}
        for kind in ("execResult", "orderUpdate"):
            need = 5 if kind == "execResult" else 19
            at = 0
            for raw, eff in ls[kind]:
                end = at + len(raw)
                if end <= p[kind]:
                    if eff:
                        want[eff[0]].update(eff[1])
                        past[eff[0]].append(want[eff[0]].copy())
                        maybe.pop(eff[0], None)
                        seen_states += n == len(pos) - 1
                elif at < p[kind]:
                    inner = True
                    if eff and raw[:p[kind] - at].count(b",") >= need:
                        maybe[eff[0]] = dict(want[eff[0]], **eff[1])
                at = end
        got = checks[n]
        if set(got) != set(ids):
            raise Violation("synchronisation %d: the orders known are %s, placed were %s" % (n, sorted(got), sorted(ids)))
        for oid in ids:
            g = dict(got[oid])
            alts = [want[oid]] + ([maybe[oid]] if oid in maybe else []) + (past[oid] if held else [])
            if not any(same(g, a, tentative=held or j == 1) for j, a in enumerate(alts)):
                diff = {k: (g[k], want[oid].get(k)) for k in g if g[k] != want[oid].get(k)}
                raise Violation("synchronisation %d of %d (files cut at %s): order %d (shown, reported): %s\nupdate file: %r\nresult file: %r" % (
                    n + 1, len(pos), p, ids.index(oid), diff, b"".join(x[0] for x in ls["orderUpdate"])[:p["orderUpdate"]][-600:],
                    b"".join(x[0] for x in ls["execResult"])[:p["execResult"]][-300:]))
    for kind in ls:
        effs = [bool(e) for _, e in ls[kind]]
        skip = 1 if case["header"] else 0
        nbad |= True in effs and False in effs[skip:effs.index(True)]
    if case["fix"]:
        if not held:
            again = sandbox.run_case(simulate, (case, ids), d, cpu=10)
            if again.status != "ok" or again.value["end"] != "return":
                raise Violation("the restarted strategy process %s, end %s\n%s" % (again.describe(), again.value, again.output[-1500:]))
            fixed = ([e["view"] for e in again.trace if e["k"] == "check" and e["n"] == len(pos)] or [{}])[0]
        want = {oid: dict(base[oid]) for oid in ids}
        right = lines(case, ids, day, True)
        for kind in ("execResult", "orderUpdate"):
            for _, eff in right[kind]:
                if eff:
                    want[eff[0]].update(eff[1])
        if set(fixed) != set(ids) or not all(same(fixed[oid], want[oid]) for oid in ids):
            raise Violation("malformed lines were corrected%s, and orders (shown, reported) are not as reported: %s\nupdate file: %r" % (
                "" if held else " and the strategy restarted", [(i, {k: (v, want[oid].get(k)) for k, v in fixed.get(oid, {}).items() if v != want[oid].get(k)}) for i, oid in enumerate(ids)],
                b"".join(x[0] for x in right["orderUpdate"])[-600:]))
    return Outcome(seen_states >= 2 and (inner or nbad), ["cut inside a line"] * inner + ["malformed before valid"] * nbad + [case["mode"]] + ["corrected " + ("later" if held else "before a restart")] * case["fix"]
                   + ["late files"] * case["late_files"], {"case": case, "states": seen_states})


def same(g, a, tentative=False):
    for k in g:
        if k == "entrust_time":
            if (g[k] or None) != (a.get(k) or None):
                return False
        elif k == "err_msg" and tentative and a["status"] == "rejected":
            continue
        elif g[k] != a.get(k):
            return False
    return True


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d, cpu=10), d)
    finally:
        env.drop(d)
