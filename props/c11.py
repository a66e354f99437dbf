"""C11: trading goes on unchanged across midnight."""
import datetime
import os

from hypothesis import strategies as st

from harness import agen, anxin, gate, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C11"
LEVEL = "exploration"
RULE = ("A case is a history over two to four days: orders, cancellations, broker reports, exports and synchronisations in callbacks around noon and around midnight (also callbacks that last beyond it, and orders begun microseconds before it), run "
        "by one strategy process or several with a restart or crash in between. Order, cancel and report files and exports of every day are compared with a model in which everything belongs to the day of its wall-clock "
        "instant. Non-trivial: the same process placed an order or took over reports on two days.")
ASSUMPTIONS = ["Reports of a day are about orders of that day or ones the process knows.", "Reports written after the last synchronisation of a day are not looked for on the next day."]
QUICK = 150
THOROUGH = 5000

SLOTS = ["00:00:00", "00:00:20", "09:30:00", "14:30:00", "23:59:50", "23:59:59"]
DAY = datetime.timedelta(days=1)

op = mix(
    st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda i: ["cancel", i], st.integers(0, 9)),
    st.builds(lambda i, s, f, t: ["report", i, s, f, t], st.integers(0, 9), st.sampled_from(list("01234578")), st.integers(0, 1000), st.sampled_from(["", "x", "撤单" * 20])),
    st.builds(lambda i, t: ["reject", i, t], st.integers(0, 9), st.sampled_from(["资金不足", "no"])),
    st.builds(lambda n: ["bulk", n], st.sampled_from([1, 5, 40])), st.just(["sync"]), st.just(["sync"]), st.just(["sync"]),
    st.builds(lambda us, o: ["brink", us, o], st.integers(0, 60), mix(agen.orders(), agen.orders(), st.none())),
    st.builds(lambda v: ["export", v], st.integers(0, 10 ** 6)), st.just(["balance"]), st.builds(lambda s: ["busy", s], st.sampled_from([1, 10, 15, 40])))


@st.composite
def cases(draw, tier):
    days = draw(st.integers(2, 4))
    script = {}
    for d in range(days):
        for s in draw(st.lists(st.integers(0, len(SLOTS) - 1), min_size=1, max_size=3, unique=True)):
            script["%d %d" % (d, s)] = draw(st.lists(op, min_size=1, max_size=5))
    cuts = draw(st.lists(st.tuples(st.integers(0, days - 1), st.sampled_from([60, 8 * 3600, 12 * 3600, 20 * 3600, 86399 - 30]),
                                   st.sampled_from(["term", "crash"])), max_size=2, unique_by=lambda c: c[:2]).map(lambda l: sorted(list(x) for x in l)))
    brink = draw(st.integers(0, 3)) == 0
    if brink:
        # an order on the brink of midnight, and a restart on the new day
        d = draw(st.integers(0, days - 2))
        script.setdefault("%d 5" % d, []).append(["brink", draw(st.integers(0, 60)), draw(agen.orders())])
        script.setdefault("%d 3" % (d + 1), []).insert(0, ["sync"])
        if not [c for c in cuts if c[0] == d + 1 and c[1] < 14 * 3600]:
            cuts = sorted(cuts + [[d + 1, 8 * 3600, draw(st.sampled_from(["term", "crash"]))]])
    return {"day": draw(st.dates(datetime.date(2023, 1, 1), datetime.date(2029, 12, 1))).isoformat(), "days": days, "script": script, "cuts": cuts,
            "files": "midnight" if brink else draw(st.sampled_from(["midnight", "midnight", "with_first_report"])), "header": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def segments(case):
    day0 = datetime.datetime.fromisoformat(case["day"])
    out, at = [], day0 - datetime.timedelta(seconds=15)
    for d, sec, how in case["cuts"]:
        t = day0 + d * DAY + datetime.timedelta(seconds=sec, milliseconds=300)
        out.append((at, t, how))
        at = t + datetime.timedelta(seconds=5)
    out.append((at, day0 + case["days"] * DAY + datetime.timedelta(seconds=100), "term"))
    return out


def simulate(case, n):
    start, end, how = segments(case)[n]
    day0 = datetime.date.fromisoformat(case["day"])
    d = os.path.join(os.getcwd(), "orders")
    os.makedirs(d, exist_ok=True)
    options = {"account_no": "1", "order_dir": d, "runtime_dir": "run", "sync_balance": False, "sync_order": False}

    def files(day):
        for kind, header in (("execResult", anxin.RESULT_HEADER), ("orderUpdate", anxin.UPDATE_HEADER)):
            p = anxin.path(d, kind, day)
            if not os.path.exists(p):
                anxin.write(p, header + "\n" if case["header"] else "")

    for i in range(case["days"] + 1):
        midnight = datetime.datetime.combine(day0 + i * DAY, datetime.time())
        if case["files"] == "midnight" and start < midnight < end:
            vt.at(midnight, lambda m=midnight: files(m.date()))

    def initialize(g, ctx):
        g["set_options"](**options)
        for s in range(len(SLOTS)):
            g["run_daily"](g["f%d" % s], SLOTS[s])

    def state(g, ctx):
        return gate.view_orders(g)

    def fire(s, g, ctx):
        today = (ctx.strategy_dt.date() - day0).days
        for o in case["script"].get("%d %d" % (today, s), []):
            play(o, g, ctx)

    def today_ids(g):
        ids = [r[1] for r in anxin.read_orders(d, vt.now().date())[0]]
        return ids + sorted(x for x in g["get_orders"]() if x not in ids)

    def play(o, g, ctx):
        t0 = vt.now_ns()
        day = vt.now().date()
        k = o[0]
        if k == "order":
            args, kw = agen.order_args(g, o[1])
            r = g["order"](*args, **kw)
            sandbox.rec("placed", id=r, o=o[1], t0=t0, day=str(day), p=n)
        elif k == "brink":
            # an order or synchronisation that begins some microseconds before midnight (only when midnight is near, so that nothing else is passed over)
            nxt = datetime.datetime.combine(day + DAY, datetime.time())
            left = nxt - vt.now() - datetime.timedelta(microseconds=o[1])
            if not datetime.timedelta() < left < datetime.timedelta(seconds=60):
                return
            vt.advance(left.total_seconds())
            if o[2] is None:
                g["sync_orders"]()
                sandbox.rec("brinksync", day=str(day), p=n, view=gate.view_orders(g))
            else:
                args, kw = agen.order_args(g, o[2])
                r = g["order"](*args, **kw)
                sandbox.rec("placed", id=r, o=o[2], t0=t0, day=str(day), days=[str(day), str(day + DAY)], p=n)
            vt.advance(0.01)
        elif k == "cancel":
            known = sorted(g["get_orders"]())
            if known:
                x = known[o[1] % len(known)]
                g["cancel_order"](x)
                sandbox.rec("cancel", id=x, day=str(day), p=n)
        elif k == "bulk":
            files(day)
            anxin.write(anxin.path(d, "orderUpdate", day), "".join(anxin.update_line(day, "8%d" % j) + "\n" for j in range(o[1])), "ab")
            anxin.write(anxin.path(d, "execResult", day), "".join(anxin.result_line("8%d" % j) + "\n" for j in range(o[1])), "ab")
        elif k == "reject":
            ids = today_ids(g)
            if ids:
                files(day)
                x = ids[o[1] % len(ids)]
                anxin.write(anxin.path(d, "execResult", day), anxin.result_line(x, err=o[2]) + "\n", "ab")
                sandbox.rec("state", id=x, day=str(day), res=True, set={"status": "rejected", "err_msg": o[2]})
        elif k == "report":
            ids = today_ids(g)
            if ids:
                files(day)
                x = ids[o[1] % len(ids)]
                anxin.write(anxin.path(d, "orderUpdate", day), anxin.update_line(day, x, status=o[2], filled=o[3], avg=2.5, amt=o[3] * 2.5, text=o[4]) + "\n", "ab")
                sandbox.rec("state", id=x, day=str(day), res=False, set={"status": anxin.STATUS[o[2]], "err_msg": o[4], "filled_amount": o[3], "avg_price": 2.5,
                                                                        "deal_balance": round(o[3] * 2.5, 4)})
        elif k == "sync":
            ready = os.path.exists(anxin.path(d, "orderUpdate", day)) and os.path.exists(anxin.path(d, "execResult", day))
            g["sync_orders"]()
            sandbox.rec("synced", day=str(day), p=n, ready=ready, view=gate.view_orders(g), path=path_day(day))
        elif k == "export":
            v = o[1]
            anxin.replace(anxin.path(d, "assetInfo", day), anxin.csv_text(anxin.ASSET_COLS, [
                {"updTime": "1", "acctType": "UM0", "acct": "1", "totalAsset": v, "currentBalance": v + 7, "enabledBalance": v + 3, "mktValue": 1}]))
            anxin.replace(anxin.path(d, "positionInfo", day), anxin.csv_text(anxin.POSITION_COLS, [
                {"updTime": "1", "acctType": "UM0", "acct": "1", "symbol": "000001.SZ", "currentQty": v + 1, "enabledQty": v, "costPrice": 1, "lastPrice": 1, "mktValue": 1}]))
            sandbox.rec("export", day=str(day), v=v)
        elif k == "balance":
            before = gate.view_portfolio(ctx)
            g["sync_balance"]()
            sandbox.rec("balance", day=str(vt.now().date()), day0=str(day), view=gate.view_portfolio(ctx), before=before, p=n)
        elif k == "busy":
            vt.advance(o[1])

    def path_day(day):
        return str(day)

    return sim.start_task(start, end, initialize, fire, nfuncs=len(SLOTS), on_horizon="exit" if how == "crash" else "term")


def judge(case, results, d):
    segs = segments(case)
    for res, (a, b, how) in zip(results, segs):
        if how == "crash":
            if res.status != "exit" or res.code != 72:
                raise Violation("the process %s before its crash\n%s" % (res.describe(), res.output[-1500:]))
        elif res.status != "ok" or res.value["end"] != "return":
            raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = results[-1].trace
    wd = os.path.join(d, "orders")
    day0 = datetime.date.fromisoformat(case["day"])
    lines, cancels, reports, exports, known, base, active = {}, {}, {}, {}, {}, {}, {}
    loose = {}

    def settle(e):
        """take over what a synchronisation around midnight may have read"""
        mine = known.setdefault(e["p"], {})
        for (p, oid), may in loose.items():
            if p == e["p"] and oid in mine and oid in e["view"]:
                dd, v = mine[oid]
                for f in v:
                    if e["view"][oid][f] in [m[f] for m in may if f in m]:
                        v = dict(v, **{f: e["view"][oid][f]})
                mine[oid] = (dd, v)

    for e in tr:
        k = e["k"]
        if k == "placed":
            if e["id"] is None:
                raise Violation("placing the valid order %s failed on %s\n%s" % (e["o"], e["day"], results[e["p"]].output[-1500:]))
            for x in e.get("days", []):
                # begun just before midnight: either day's file, and from then on it is an order of that day
                if e["id"] in [r[1] for r in anxin.read_orders(wd, datetime.date.fromisoformat(x))[0]]:
                    e["day"] = x
            lines.setdefault(e["day"], []).append((e["id"], e["o"]))
            o = e["o"]
            base[e["id"]] = {"order_id": e["id"], "code": o["code"], "amount": abs(o["amount"]), "action": "open" if o["amount"] > 0 else "close", "status": "new", "filled_amount": 0,
                             "avg_price": None, "deal_balance": 0, "err_msg": "", "order_price": agen.style_price(o), "side": "long"}
            known.setdefault(e["p"], {})[e["id"]] = (e["day"], dict(base[e["id"]]))
            active.setdefault(e["p"], set()).add(e["day"])
        elif k == "cancel":
            cancels.setdefault(e["day"], []).append(e["id"])
        elif k == "state":
            reports.setdefault(e["day"], []).append(e)
        elif k == "export":
            exports[e["day"]] = e["v"]
        elif k == "balance":
            v = e["view"]
            if e["day"] != e["day0"]:
                continue
            if e["day"] in exports:
                x = exports[e["day"]]
                want = (x, x + 3, 4, x, x + 1)
                pos = v["long"].get("000001.XSHE")
                got = (v["total"], v["cash"], v["locked"], pos and pos["closeable"], pos and pos["amount"])
                if got != want:
                    raise Violation("after the balance synchronisation of %s the account shows %s, the export of the day has %s" % (e["day"], got, want))
            elif v != e["before"]:
                raise Violation("there is no export for %s, but the account changed from %s to %s" % (e["day"], e["before"], v))
        elif k == "brinksync":
            # it may have read reports of the day that ends, of the new one (none yet), or failed in between: each order shows what it did before or what was
            # reported, now or after the next synchronisation
            mine = known.setdefault(e["p"], {})
            for oid, (dd, v) in mine.items():
                if oid not in e["view"]:
                    raise Violation("order %s of %s is not visible any more at the end of %s" % (oid, dd, e["day"]))
                loose.setdefault((e["p"], oid), []).extend([v] + [r["set"] for r in reports.get(e["day"], []) if r["id"] == oid])
            settle(e)
        elif k == "synced":
            mine = known.setdefault(e["p"], {})
            day = e["day"]
            view = e["view"]
            settle(e)
            if e["ready"]:
                active.setdefault(e["p"], set()).update([day] if reports.get(day) else [])
                today = [oid for oid, o in lines.get(day, [])]
                for oid in today + [x for x in mine if x not in today]:
                    results_first = [r for r in reports.get(day, []) if r["id"] == oid]
                    want = dict(base[oid] if oid in today else mine[oid][1])
                    for r in results_first:
                        want.update(r["set"])
                    rej = [r for r in results_first if r["res"]]
                    upd = [r for r in results_first if not r["res"]]
                    free = ("status", "err_msg") if rej and upd else ()
                    if oid not in view:
                        raise Violation("order %s of %s is not known after the synchronisation of that day in process %d; known: %s" % (oid, day, e["p"], sorted(view)))
                    bad = {f: (view[oid][f], want[f]) for f in want if view[oid][f] != want[f] and f not in free}
                    if bad:
                        raise Violation("after the synchronisation of %s in process %d, order %s shows (shown, reported) %s\n%s" % (day, e["p"], oid, bad, results[e["p"]].output[-1200:]))
                    mine[oid] = (mine.get(oid, (day,))[0], {f: view[oid][f] for f in want})
                    loose.pop((e["p"], oid), None)
            for oid, (dd, v) in mine.items():
                if oid not in view:
                    raise Violation("order %s of %s is not visible any more on %s" % (oid, dd, day))
                bad = {f: (view[oid][f], v[f]) for f in v if view[oid][f] != v[f]}
                if bad:
                    raise Violation("order %s of %s changed on %s without a report of that day (shown, before): %s" % (oid, dd, day, bad))
            for oid in view:
                if oid not in base:
                    raise Violation("an order nobody placed is known: %s" % view[oid])
    for i in range(-1, case["days"] + 1):
        day = day0 + i * DAY
        rows, bad = anxin.read_orders(wd, day)
        crow, bad2 = anxin.read_cancels(wd, day)
        if bad + bad2:
            raise Violation("; ".join(bad + bad2))
        want = [x[0] for x in lines.get(str(day), [])]
        if [r[1] for r in rows] != want:
            raise Violation("the order file of %s has the orders %s, placed that day were %s" % (day, [r[1] for r in rows], want))
        want = cancels.get(str(day), [])
        if [r[1] for r in crow] != want:
            raise Violation("the cancel file of %s has %s, cancelled that day were %s" % (day, [r[1] for r in crow], want))
    nt = any(len(v) > 1 for v in active.values())
    return Outcome(nt, ["restarts"] * (len(segs) > 1) + ["reports on two days"] * (len([1 for v in reports.values() if v]) > 1) + ["crash"] * any(s[2] == "crash" for s in segs),
                   {"case": case, "days with orders": sorted(lines)})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, [sandbox.run_case(simulate, (case, n), d) for n in range(len(segments(case)))], d)
    finally:
        env.drop(d)
