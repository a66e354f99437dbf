"""C06: the order and cancel files hold exactly what the strategy ordered."""
import datetime
import os

from hypothesis import strategies as st

from harness import agen, anxin, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.steps import run_steps
from harness.gens import mix

ID = "C06"
LEVEL = "exploration"
RULE = ("A case is a history of order, cancel, batch and synchronisation calls and broker reports (valid, invalid and ones the broker interface refuses) spread over the callbacks of one or "
        "two strategy runs of a day with generated gate options; afterwards the order and cancel files are read by an independent "
        "parser and compared with the model line by line. Non-trivial: at least two lines were expected.")
ASSUMPTIONS = ["Limit prices are not negative (0 stands for the opposite best price).", "One line per order means one complete line; fsync is not looked at."]
QUICK = 220
THOROUGH = 5000


@st.composite
def cases(draw, tier):
    order = agen.orders(sides=(None, None, None, "long", "short"))
    op = mix(
        st.builds(lambda o: ["order", o], order), st.builds(lambda o: ["order", o], order), st.builds(lambda o: ["bad", o], agen.bad_orders()),
        st.builds(lambda i, f: ["cancel", i, f], st.integers(0, 12), st.sampled_from(["str", "int"])),
        st.builds(lambda x: ["cancel_unknown", x], st.sampled_from(["123", "0", "", "abc", 99, "None"])),
        st.builds(lambda l: ["batch", l], st.lists(mix(order, order, agen.bad_orders()), max_size=6)),
        st.builds(lambda l: ["batch_cancel", l], st.lists(mix(st.integers(0, 12), st.just(-1)), max_size=5)),
        st.just(["sync_orders"]), st.builds(lambda i, x, y: ["report", i, x, y], st.integers(0, 12), st.sampled_from("0122345578"), st.booleans()), st.just(["sync_balance"]), st.builds(lambda s: ["busy", s], st.integers(1, 40)))
    segs = []
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        segs.append(draw(st.lists(st.lists(op, max_size=5), min_size=1, max_size=4)))
    if not any(segs[0]):
        segs[0][0].append(["order", draw(order)])
    if draw(st.integers(0, 14)) == 0:        # large files
        segs[0].insert(draw(st.integers(0, len(segs[0]))), [["batch", draw(st.lists(order, min_size=3, max_size=5)) * draw(st.sampled_from([15, 60]))], ["batch_cancel", list(range(draw(st.sampled_from([20, 150]))))]])
    opts = {"account_no": draw(st.sampled_from(["1", "88001234", "A-1", 12345, "0012"]))}
    if draw(st.booleans()):
        opts["counter_type"] = draw(st.sampled_from(["UM0", "UF0", "AT0"]))
    if draw(st.booleans()):
        opts["algo_type"] = draw(st.sampled_from(["DMA", "TWAP_PLUS"]))
    if draw(st.booleans()):
        opts["account_type"] = draw(st.sampled_from(["STOCK", "STOCK", "FUTURE"]))
    enc = draw(st.sampled_from([None, "utf-8", "gbk"]))
    if enc:
        opts["file_encoding"] = enc
    return {"start": draw(agen.day_starts), "segments": segs, "opts": opts, "dir": draw(st.sampled_from(
        ["orders", "orders", "安信 one", "a/b"])), "files": draw(st.booleans()), "debug": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def place(g, kw_form, o):
    args, kw = order_kw(g, o)
    return g["order"](*args, **kw)


def order_kw(g, o):
    kw = {}
    s = o.get("style")
    if s is not None:
        kw["style"] = raw_style(g, s[1]) if s[0] == "raw" else agen.make_style(g, s)
    if "side" in o:
        kw["side"] = o["side"]
    return (o["code"], o["amount"]), kw


def raw_style(g, v):
    return g["LimitOrderStyle"] if v == "class" else v


def descr(g, o):
    args, kw = order_kw(g, o)
    return dict(kw, code=args[0], amount=args[1])


def simulate(case, seg):
    start = sim.un(case["start"]) + datetime.timedelta(hours=seg)
    day = start.date()
    d = os.path.join(os.getcwd(), case["dir"])
    os.makedirs(d, exist_ok=True)
    if case["files"] and seg == 0:
        anxin.write(anxin.path(d, "execResult", day), anxin.RESULT_HEADER + "\n")
        anxin.write(anxin.path(d, "orderUpdate", day), anxin.UPDATE_HEADER + "\n")
    options = dict(case["opts"], order_dir=d, runtime_dir="run", sync_balance=False, sync_order=False)
    ids = []
    for e in sandbox.read_trace(os.getcwd()):
        if e["k"] == "placed":
            ids += [x for x in e["ids"] if x]

    def do(op, g, ctx, k):
        kind, t0 = op[0], vt.now()
        if kind in ("order", "bad"):
            try:
                r, err = place(g, True, op[1]), None
            except Exception as e:
                r, err = None, type(e).__name__
            sandbox.rec("placed", ids=[r], orders=[op[1]], err=err, t0=vt.to_ns(t0), t1=vt.now_ns(), typ=type(r).__name__, op=kind)
            if r:
                ids.append(r)
        elif kind == "batch":
            try:
                r, err = g["batch_submit_orders"]([descr(g, o) for o in op[1]]), None
            except Exception as e:
                r, err = None, repr(e)
            sandbox.rec("placed", ids=r, orders=op[1], err=err, t0=vt.to_ns(t0), t1=vt.now_ns(), op="batch")
            ids.extend(x for x in r or [] if x)
        elif kind in ("cancel", "cancel_unknown", "batch_cancel"):
            known = sorted(set(g["get_orders"]()))
            if kind == "cancel":
                if not ids:
                    return
                x = ids[op[1] % len(ids)]
                want = [int(x) if op[2] == "int" else x]
            elif kind == "cancel_unknown":
                want = [op[1]]
            else:
                want = [(ids[i % len(ids)] if i >= 0 and ids else "77") for i in op[1]]
            try:
                err = None
                if kind == "batch_cancel":
                    g["batch_cancel_orders"](want)
                else:
                    g["cancel_order"](want[0])
            except Exception as e:
                err = repr(e)
            sandbox.rec("canceled", want=[str(w) for w in want], known=known, err=err, t0=vt.to_ns(t0), t1=vt.now_ns())
        elif kind == "report":
            if ids:
                oid = ids[op[1] % len(ids)]
                anxin.write(anxin.path(d, "orderUpdate", day), anxin.update_line(day, oid, status=op[2], filled=0, avg=0, amt=0) + "\n", "ab")
                if not os.path.exists(anxin.path(d, "execResult", day)):
                    anxin.write(anxin.path(d, "execResult", day), anxin.RESULT_HEADER + "\n")
                if op[3]:
                    g["sync_orders"]()
                    sandbox.rec("reported", status=g["get_orders"]()[oid].status)
        elif kind == "busy":
            vt.advance(op[1])
        else:
            g[kind]()

    return run_steps(start, case["segments"][seg], options, do, argv=["--debug"] if case["debug"] else [])


def near(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)))


def stamp(row, day):
    try:
        t = datetime.datetime.strptime(row[0], "%H%M%S.%f")
    except ValueError:
        return None
    return vt.to_ns(datetime.datetime.combine(day, t.time()))


def judge(case, results, d):
    for res in results:
        if res.status != "ok" or res.value["end"] != "return":
            raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value, res.output[-1500:]))
    tr = results[-1].trace
    day = sim.un(case["start"]).date()
    wd = os.path.join(d, case["dir"])
    opts = case["opts"]
    usable = opts.get("account_type", "STOCK") == "STOCK"
    want, cancels, failed = [], [], 0
    for e in tr:
        if e["k"] == "placed":
            if e["ids"] is None:
                raise Violation("batch_submit_orders raised %s" % e["err"])
            if len(e["ids"]) != len(e["orders"]):
                raise Violation("batch_submit_orders returned %d results for %d orders" % (len(e["ids"]), len(e["orders"])))
            for oid, o in zip(e["ids"], e["orders"]):
                if oid is None:
                    failed += 1
                else:
                    want.append((oid, o, e))
                good = is_good(o) and usable and o.get("side") != "short"
                if good != (oid is not None):
                    raise Violation("order %s %s" % (o, "failed (%s)" % e["err"] if good else "was accepted with id %s" % oid))
        elif e["k"] == "canceled":
            if e["err"]:
                raise Violation("cancelling %s raised %s" % (e["want"], e["err"]))
            for w in e["want"]:
                if w in e["known"]:
                    cancels.append((w, e))
    rows, bad = anxin.read_orders(wd, day)
    crow, bad2 = anxin.read_cancels(wd, day)
    if bad + bad2:
        raise Violation("; ".join(bad + bad2))
    got_ids, want_ids = [r[1] for r in rows], [w[0] for w in want]
    if got_ids != want_ids:
        raise Violation("the order file has the orders %s, successfully placed were %s" % (got_ids, want_ids))
    for r, (oid, o, e) in zip(rows, want):
        exp = anxin.expect_order(oid, dict(o, price=agen.limit_price(o)), counter=opts.get("counter_type", "UM0"),
                                 acct=opts["account_no"], algo=opts.get("algo_type", "DMA"))
        got = anxin.order_fields(r)
        if not all(near(a, b) for a, b in zip(got, exp)):
            raise Violation("order %s (id %s) is in the file as %s, expected %s" % (o, oid, got, exp))
        check_stamp(r, e, day)
    if [r[1] for r in crow] != [c[0] for c in cancels]:
        raise Violation("the cancel file has %s, cancelled were %s" % ([r[1] for r in crow], [c[0] for c in cancels]))
    for r, (oid, e) in zip(crow, cancels):
        check_stamp(r, e, day)
    others = [f for f in os.listdir(wd) if not f.startswith(("algoOrder_", "algoOrderStop_", "execResult_", "orderUpdate_"))]
    if others:
        raise Violation("other files were written to the order directory: %s" % others)
    return Outcome(len(want) + len(cancels) >= 2, ["orders"] * bool(want) + ["cancels"] * bool(cancels) + ["failed orders"] * bool(failed)
                   + ["two runs"] * (len(results) > 1) + sorted({"reported " + e["status"] for e in tr if e["k"] == "reported"}), {"case": case, "lines": len(want), "cancels": len(cancels)})


def check_stamp(r, e, day):
    t = stamp(r, day)
    if t is None or not e["t0"] - 1000 <= t <= e["t1"]:
        raise Violation("line %s carries the time %s, it was written between %s and %s" % (
            r, r[0], vt.from_ns(e["t0"]), vt.from_ns(e["t1"])))


def is_good(o):
    c = o["code"]
    if not (isinstance(c, str) and len(c) > 5 and c[:-5].isdigit() and c[-5:] in (".XSHE", ".XSHG")):
        return False
    if type(o["amount"]) is not int or o["amount"] == 0:
        return False
    s = o.get("style")
    if s is not None and s[0] == "raw" and s[1]:
        return False
    return not o.get("side") or o["side"] in ("long", "short")


def run(case, env):
    d = env.new_dir()
    try:
        results = [sandbox.run_case(simulate, (case, i), d) for i in range(len(case["segments"]))]
        return judge(case, results, d)
    finally:
        env.drop(d)
