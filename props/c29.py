"""C29: relative paths keep their meaning when the strategy changes its working directory."""
import datetime
import os
import shutil
import sys

from hypothesis import strategies as st

from harness import agen, anxin, gate, gen, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C29"
LEVEL = "exploration"
RULE = ("A case is a history of orders, cancellations, broker reports, synchronisations, imports, prints and log calls of a real strategy with the default trade gate, started with relative paths (strategy, log, configuration file, PYTHONPATH entry, order and runtime directory), some days long, and changes of the working directory at generated points, "
        "into directories that hold look-alike files. It is run twice from equal directories, with and without the changes, and once more afterwards: what the strategy sees, the files that exist and what is in them must be equal up to order numbers. "
        "Non-trivial: at least one change of directory followed by another operation.")
ASSUMPTIONS = ["The order and runtime directory given to set_options count from the working directory at that call."]
QUICK = 110
THOROUGH = 3000

ops = mix(st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda o: ["order", o], agen.orders()), st.builds(lambda i: ["cancel", i], st.integers(0, 5)), st.just(["sync"]), st.just(["balance"]),
                st.builds(lambda i, s, f: ["report", i, s, f], st.integers(0, 5), st.sampled_from(list("01234578")), st.integers(0, 500)), st.builds(lambda i: ["import", i], st.integers(0, 5)), st.just(["print"]), st.just(["log"]),
                st.builds(lambda d: ["chdir", d], st.sampled_from(["other", "other", "other/deep", ".", "strat"])), st.builds(lambda d: ["chdir", d], st.sampled_from(["other", "other/deep"])))


@st.composite
def cases(draw, tier):
    d = draw(gen.dates)
    base = draw(st.sampled_from(["09:30:00", "10:00:00", "23:57:30", "23:59:20"]))
    return {"start": "%sT%s.500000" % (d, base), "steps": draw(st.lists(st.lists(ops, min_size=1, max_size=5), min_size=2, max_size=4)), "early": draw(st.sampled_from([None, None, "other"])), "config": draw(st.booleans()), "out": draw(st.sampled_from([None, "out.log", "logs/o.log"])),
            "code": draw(st.sampled_from(["vstrategy_case.py", "strat/vstrategy_case.py", "./vstrategy_case.py"])), "path": draw(st.sampled_from(["lib", "./lib", "none:lib"])), "sync": draw(st.sampled_from([20, 45, 3600]))}


def strategy(tier):
    return cases(tier)


def simulate(case, change, again):
    top = os.getcwd()
    start = sim.un(case["start"])
    if again:
        start += datetime.timedelta(seconds=60 * len(case["steps"]) + 30)
    else:
        for x in ("strat", "logs", "other/deep/orders", "other/orders", "other/run", "orders", "other/logs", "other/deep/strat"):
            os.makedirs(x, exist_ok=True)
        os.makedirs("lib", exist_ok=True)
        for x in ("other", "other/deep", "other/deep/strat"):
            os.makedirs(os.path.join(x, "lib"), exist_ok=True)
        for k in range(6):
            with open(os.path.join("lib" if k > 2 else os.path.dirname(case["code"]) or ".", "vmod%d.py" % k), "w") as f:
                f.write("WHERE = 'right'\n")
            for x in ("other", "other/deep", "other/deep/strat"):
                with open(os.path.join(x, "lib" if k > 2 else ".", "vmod%d.py" % k), "w") as f:
                    f.write("WHERE = 'wrong'\n")
        with open("cfg.py", "w") as f:
            f.write("ACCOUNT_SYNC_INTERNAL = %d\n" % case["sync"])
        for x in ("other", "other/deep"):
            with open(os.path.join(x, "cfg.py"), "w") as f:
                f.write("ACCOUNT_TRADE_GATE = 'no.Such'\n")
    d = os.path.join(top, "orders")
    ids = []
    steps = [[["look"]]] if again else case["steps"]
    first = start.replace(microsecond=0) + datetime.timedelta(seconds=1)
    times = [first + datetime.timedelta(seconds=60 * i) for i in range(len(steps) - 1)]

    def norm(orders):
        out = []
        for k, v in sorted(orders.items(), key=lambda kv: (str(kv[1]["create_time"]), kv[0])):
            v = dict(v, order_id=None)
            v.pop("create_time")
            out.append(v)
        return sorted(out, key=repr)

    def do(op, g, ctx):
        kind = op[0]
        day = vt.now().date()
        if kind == "chdir":
            if change:
                os.chdir(os.path.join(top, op[1]))
            return
        if kind == "order":
            args, kw = agen.order_args(g, op[1])
            r = g["order"](*args, **kw)
            ids.append(r)
            r = r is not None
        elif kind == "cancel":
            r = g["cancel_order"](ids[op[1] % len(ids)]) if ids else None
        elif kind == "sync":
            r = g["sync_orders"]()
        elif kind == "balance":
            anxin.replace(anxin.path(d, "assetInfo", day), anxin.csv_text(anxin.ASSET_COLS, [{"acct": "1", "acctType": "UM0", "exchange": "SZ", "totalAsset": 1000 + len(ids), "currentBalance": 900, "enabledBalance": 800, "mktValue": 100, "updTime": "093000"}]))
            anxin.replace(anxin.path(d, "positionInfo", day), anxin.csv_text(anxin.POSITION_COLS, [{"acct": "1", "acctType": "UM0", "symbol": "000001.SZ", "currentQty": 100, "enabledQty": 100, "costPrice": 1, "lastPrice": 1, "mktValue": 100, "updTime": "093000"}]))
            r = g["sync_balance"]()
        elif kind == "report":
            rows = anxin.read_orders(d, day)[0]
            if rows:
                oid = rows[op[1] % len(rows)][1]
                anxin.write(anxin.path(d, "orderUpdate", day), anxin.update_line(day, oid, status=op[2], filled=op[3], avg=1.5, amt=1.5 * op[3]) + "\n", "ab")
            r = None
        elif kind == "import":
            import importlib
            if op[1] % 3 != 1:
                importlib.invalidate_caches()      # as after writing a module
            r = importlib.import_module("vmod%d" % op[1]).WHERE
        elif kind == "print":
            g["print"]("PRINTED", len(ids))
            r = None
        elif kind == "log":
            g["log"].info("LOGGED %d", len(ids))
            r = None
        else:
            g["sync_orders"]()
            r = None
        sandbox.rec("op", op=op, r=r, orders=norm(gate.view_orders(g)), total=ctx.portfolio.total_value, t=vt.now_ns() // 10 ** 7)

    n = [0]

    def play(i, g, ctx):
        for op in steps[i]:
            do(op, g, ctx)

    def initialize(g, ctx):
        for kind in ("execResult", "orderUpdate"):
            if not again:
                anxin.write(anxin.path(d, kind, start.date()), "")
        rel = not case["early"] and not again
        if change and case["early"]:
            os.chdir(os.path.join(top, case["early"]))
        o = {"account_no": "1", "order_dir": "orders" if rel else d, "runtime_dir": "run" if rel else os.path.join(top, "run"), "sync_balance": False}
        if not case["config"]:
            o["sync_internal"] = case["sync"]
        g["set_options"](**o)
        for t in times:
            g["run_daily"](g["f0"], t.strftime("%H:%M:%S"))
        play(0, g, ctx)
        sandbox.rec("ready")

    def fire(i, g, ctx):
        n[0] += 1
        if n[0] < len(steps):
            play(n[0], g, ctx)

    args = ["-n", "vtask", "-c", case["code"]] + (["--config", "cfg.py"] if case["config"] else []) + (["-o", case["out"]] if case["out"] else []) + ["-e", "PYTHONPATH=" + case["path"]]
    end = sim.start_task(start, start + datetime.timedelta(seconds=60 * len(steps) + 5), initialize, fire, nfuncs=1, code=case["code"], args=args)
    os.chdir(top)
    end["log"] = []
    if case["out"] and not again:
        with open(case["out"], encoding="utf-8") as f:
            end["log"] = [x for x in f.read().split("\n") if "LOGGED" in x or "PRINTED" in x]
            end["log"] = [x[-8:] for x in end["log"]]
    return end


def tree(d):
    out = []
    for p, dirs, files in os.walk(d):
        for f in files:
            if f not in (".trace", ".output") and "__pycache__" not in p:
                out.append(os.path.relpath(os.path.join(p, f), d))
    return sorted(out)


def contents(d, case):
    days = {sim.un(case["start"]).date() + datetime.timedelta(days=k) for k in (0, 1)}
    return [(str(day), [r[2:] for r in anxin.read_orders(os.path.join(d, "orders"), day)[0]], len(anxin.read_cancels(os.path.join(d, "orders"), day)[0])) for day in sorted(days)]


def run(case, env):
    dirs = [env.new_dir() for _ in range(2)]
    try:
        seen = []
        for d, change in zip(dirs, (False, True)):
            a = sandbox.run_case(simulate, (case, change, False), d)
            text = "strategy %s, log %s, configuration file %s, %s: " % (case["code"], case["out"], case["config"], "changing the working directory (%s first)" % case["early"] if change else "without changes of directory")
            if a.status != "ok" or a.value["end"] != "return":
                raise Violation(text + "the strategy process %s: %s\n%s" % (a.describe(), a.value and (a.value["exc"], a.value["msg"], a.value["tb"]), a.output[-1500:]))
            tr = [e for e in a.trace if e["k"] in ("op", "ready")]
            files = tree(d)
            os.unlink(os.path.join(d, ".trace"))
            b = sandbox.run_case(simulate, (case, False, True), d)
            if b.status != "ok" or b.value["end"] != "return":
                raise Violation(text + "the next process %s: %s\n%s" % (b.describe(), b.value and (b.value["exc"], b.value["msg"], b.value["tb"]), b.output[-1500:]))
            seen.append({"trace": tr, "files": files, "contents": contents(d, case), "log": a.value["log"], "next": [e for e in b.trace if e["k"] == "op"]})
        x, y = seen
        for e in y["trace"]:
            if e["k"] == "op" and e["op"][0] == "import" and e["r"] != "right":
                raise Violation(text + "a module beside the strategy or on PYTHONPATH was imported from another directory")
        for e, f in zip(x["trace"], y["trace"]):
            if e != f:
                raise Violation(text + "differs from the run without: %s instead of %s" % (f, e))
        for what in ("trace", "files", "contents", "log", "next"):
            if x[what] != y[what]:
                raise Violation(text + "%s differ: %s instead of %s" % (what, y[what], x[what]))
        flat = [o[0] for s in case["steps"] for o in s]
        nt = "chdir" in flat and any(o != "chdir" for o in flat[flat.index("chdir"):]) or (bool(case["early"]) and len(flat) > 1)
        return Outcome(nt, ["early"] * bool(case["early"]) + ["midnight"] * (case["start"][11:13] == "23") + ["op " + o for o in set(flat)] + ["config"] * case["config"], {"case": case, "files": x["files"]}, n=1)
    finally:
        for d in dirs:
            env.drop(d)
