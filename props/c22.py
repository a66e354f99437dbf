"""C22: a custom configuration file takes effect exactly as written."""
import datetime
import os
import shutil
import sys
import types

from hypothesis import strategies as st

from harness import gate, gen, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix
from props import c03, c14

ID = "C22"
LEVEL = "exploration"
RULE = ("A case is a set of SCHEDULER_ and ACCOUNT_ settings with values, the way each is written in the file (literal, through a helper function, an imported module, a loop or a class), names that only look like settings, "
        "a way to give the path, strategy options for some of the same things, tasks, and a run of up to two days. The values in force (option, else file, else default) must show: firings of open/close/every_minute, synchronisation times, the trade gate that is set up, "
        "whether the account is loaded, and the runtime directory that appears. A file that is missing or raises must make the start fail before the strategy is initialised. Non-trivial: at least one setting of the file, and one of the others left at its default or overridden by an option.")
ASSUMPTIONS = ["SETUP_ACCOUNT False together with use_account=True is left open for the account API names.", "ENABLE_HISTORY_START is for tests only and not generated.",
               "The default trade gate is replaced with a recording stand-in of the same name."]
QUICK = 150
THOROUGH = 3000


def tm(hms):
    return "datetime.time(%s)" % ", ".join(str(int(x)) for x in hms.split(":"))


def times(per):
    return [(datetime.time(*map(int, a.split(":"))), datetime.time(*map(int, b.split(":")))) for a, b in per]


periods = gen.market_periods(max_minutes=90).filter(lambda p: p is not None and len({tuple(x) for x in p}) == len(p))
intervals = st.sampled_from([1, 2, 7, 30, 60, 90.5, 600, 3600, 5000.25])
HOWS = ["literal", "literal", "helper", "nested helper", "class", "condition", "import", "computed"]


@st.composite
def cases(draw, tier):
    start = draw(gen.starts())
    if draw(st.booleans()):
        start = start[:10] + "T08:%02d:00.500000" % draw(st.integers(0, 59))
    cfg = {}
    for name, s in (("SCHEDULER_MARKET_PERIOD", periods), ("SCHEDULER_EVENT_DAYS_COUNT", st.sampled_from([1, 2, 3, 400])), ("SCHEDULER_RUNTIME_DIR", st.sampled_from(["@/cfgrun", "@/a/b", "~/elsewhere", "relrun"])),
                    ("SCHEDULER_SETUP_ACCOUNT", st.sampled_from([True, False, False])), ("ACCOUNT_SYNC_BALANCE", st.booleans()), ("ACCOUNT_SYNC_ORDER", st.booleans()), ("ACCOUNT_SYNC_INTERNAL", intervals),
                    ("ACCOUNT_SYNC_PERIOD", mix(periods, st.just([]))), ("ACCOUNT_TRADE_GATE", st.sampled_from(["vgate.VGate", "vgate2.deep.Other", "", None]))):
        if draw(st.integers(0, 2)) == 0 or (name == "SCHEDULER_SETUP_ACCOUNT" and draw(st.integers(0, 3)) == 0):
            cfg[name] = draw(s)
    opt = {}
    for name, s in (("use_account", st.booleans()), ("market_period", periods), ("runtime_dir", st.sampled_from(["@/optrun", "orel", "~/optrun"])), ("sync_balance", st.booleans()), ("sync_order", st.booleans()),
                    ("sync_internal", intervals), ("sync_period", mix(periods, st.just([])))):
        if draw(st.integers(0, 4)) == 0:
            opt[name] = draw(s)
    c = {"start": start, "cfg": cfg, "opt": opt, "order": draw(st.permutations(sorted(cfg))), "hows": [draw(st.sampled_from(HOWS)) for _ in cfg], "noise": draw(st.lists(st.integers(0, len(NOISE) - 1), max_size=4, unique=True)),
         "path": draw(st.sampled_from(["cfg.py", "./c fg.conf", "@/cfg.py", "~/cfg.py", "sub/配置.py"])), "opt_times": draw(st.booleans()),
         "tasks": draw(st.lists(mix(st.sampled_from(["open", "close", "every_minute", "10:00", "open-1m", "close+30m"]), gen.exprs(3)), min_size=1, max_size=4, unique=True)),
         "fault": draw(st.sampled_from([None] * 12 + ["missing", "raises", "syntax", "nofile"]))}
    e = effective(c)
    iv, per = e["interval"], e["sync_period"]
    days = draw(st.sampled_from([1, 2]))
    if e["account"] and (e["balance"] or e["orders"]):
        perday = (sum(c14.sec(b) - c14.sec(a) + 60 for a, b in per) if per else 86400) / iv
        if perday * days > 2500:
            days = 1
        c["length"] = int(min(86400 * days, 86400 if perday <= 2500 else 900 * iv))
        if per and perday > 2500:
            c["length"] = 86400 * days
            if perday > 20000:
                c["length"] = int(900 * iv)
    else:
        c["length"] = 86400 * days
    return c


NOISE = ["MARKET_PERIOD = [(datetime.time(1, 0), datetime.time(2, 0))]", "scheduler_RUNTIME_DIR = '/nonexistent/x'", "_SCHEDULER_SETUP_ACCOUNT = False", "XACCOUNT_SYNC_BALANCE = False", "SYNC_INTERNAL = 1",
         "accounts = {'ACCOUNT_SYNC_ORDER': False}", "def helper_unused():\n    SCHEDULER_SETUP_ACCOUNT = False\n    ACCOUNT_SYNC_BALANCE = False\n    return SCHEDULER_SETUP_ACCOUNT", "# SCHEDULER_MARKET_PERIOD = []", "RUNTIME_DIR = 'bad'",
         "Account_TRADE_GATE = 'no.Gate'", "if False:\n    ACCOUNT_TRADE_GATE = 'no.Gate'", "print('config loaded')"]


def strategy(tier):
    return cases(tier)


def effective(c):
    cfg, opt = c["cfg"], c["opt"]
    e = {"account": opt.get("use_account", cfg.get("SCHEDULER_SETUP_ACCOUNT", True)),
         "market": opt.get("market_period", cfg.get("SCHEDULER_MARKET_PERIOD")),
         "runtime": opt.get("runtime_dir", cfg.get("SCHEDULER_RUNTIME_DIR", "~/jqtrade")),
         "balance": opt.get("sync_balance", cfg.get("ACCOUNT_SYNC_BALANCE", True)),
         "orders": opt.get("sync_order", cfg.get("ACCOUNT_SYNC_ORDER", True)),
         "interval": opt.get("sync_internal", cfg.get("ACCOUNT_SYNC_INTERNAL", 5)),
         "sync_period": opt.get("sync_period", cfg.get("ACCOUNT_SYNC_PERIOD")) or None,
         "gate": cfg.get("ACCOUNT_TRADE_GATE", "default")}
    return e


def literal(name, v):
    if isinstance(v, list):
        return "[%s]" % ", ".join("(%s, %s)" % (tm(a), tm(b)) for a, b in v)
    return repr(v)


def write_config(c, path, put):
    out = ["# -*- coding: utf-8 -*-", "import datetime", "import os", ""]
    for i in c["noise"][: len(c["noise"]) // 2]:
        out.append(NOISE[i])
    for k, (name, how) in enumerate(zip(c["order"], c["hows"])):
        v = c["cfg"][name]
        lit = literal(name, put(v) if name.endswith("_DIR") else v)
        if how == "literal":
            out.append("%s = %s" % (name, lit))
        elif how == "helper":
            out.append("def make%d():\n    return %s\n\n\n%s = make%d()" % (k, lit, name, k))
        elif how == "nested helper":
            out.append("base%d = %s\n\n\ndef inner%d():\n    return base%d\n\n\ndef outer%d():\n    return inner%d()\n\n\n%s = outer%d()" % (k, lit, k, k, k, k, name, k))
        elif how == "class":
            out.append("class Box%d(object):\n    value = %s\n\n\n%s = Box%d.value" % (k, lit, name, k))
        elif how == "condition":
            out.append("%s = None\nif os.sep == '/':\n    %s = %s" % (name, name, lit))
        elif how == "import":
            out.append("from datetime import time as t%d\nitems%d = [x for x in (%s,)]\n%s = items%d[0]" % (k, k, lit, name, k))
        else:
            out.append("factor%d = 1\n%s = [y for y in [%s] if factor%d == 1][0]" % (k, name, lit, k))
    for i in c["noise"][len(c["noise"]) // 2:]:
        out.append(NOISE[i])
    if c["fault"] == "raises":
        out.append("SCHEDULER_X = undefined_name")
    elif c["fault"] == "syntax":
        out.append("SCHEDULER_X = (")
    real = os.path.abspath(os.path.expanduser(path))
    os.makedirs(os.path.dirname(real), exist_ok=True)
    with open(real, "w", encoding="utf-8") as f:
        f.write("\n".join(out) + "\n")


def simulate(case):
    cwd, home = os.getcwd(), os.environ["HOME"]
    assert home.startswith(("/dev/shm/vchk_", "/tmp/vchk_"))
    for d in os.listdir(home):
        if d in ("jqtrade", "elsewhere", "optrun"):
            shutil.rmtree(os.path.join(home, d), ignore_errors=True)

    def put(v):
        return v.replace("@", cwd) if isinstance(v, str) and v.startswith("@/") else v

    start = sim.un(case["start"])
    path = put(case["path"])
    if case["fault"] not in ("missing",):
        write_config(case, path, put)
    argv = ["--config", path]
    if case["fault"] == "missing" and os.path.exists(os.path.expanduser(path)):
        os.unlink(os.path.expanduser(path))
    elif case["fault"] == "nofile":
        argv = ["--config", os.path.join(cwd, "sub", "nodir", "x.py")]

    def before():
        from jqtrade.account.config import get_config
        default = get_config().TRADE_GATE
        gate.install()
        VGate = sys.modules["vgate"].VGate

        def make(label):
            def setup(self, options):
                sandbox.rec("gate", which=label)
                VGate.setup(self, options)
            return type("G_" + label, (VGate,), {"setup": setup})

        sys.modules["vgate"].VGate = make("vgate.VGate")
        pk = types.ModuleType("vgate2")
        pk.__path__ = []
        dp = types.ModuleType("vgate2.deep")
        dp.Other = make("vgate2.deep.Other")
        pk.deep = dp
        sys.modules["vgate2"], sys.modules["vgate2.deep"] = pk, dp
        from jqtrade.account import trade_gate
        trade_gate.AnXinDMATradeGate = make("default")
        get_config().TRADE_GATE = default

    def initialize(g, ctx):
        sandbox.rec("init", names=[n for n in ("order", "cancel_order", "get_orders", "sync_balance", "MarketOrderStyle") if n in g])
        o = {k: put(v) for k, v in case["opt"].items()}
        o["account_no"] = "1"
        for k in ("market_period", "sync_period"):
            if k in o:
                o[k] = times(o[k]) if case["opt_times"] else [tuple(p) for p in o[k]]
        g["set_options"](**o)
        try:
            ctx.portfolio.total_value
            acc = True
        except Exception as e:
            acc = type(e).__name__
        sandbox.rec("set", account=acc)
        for i, e in enumerate(case["tasks"]):
            g["run_daily"](g["f%d" % i], e)
        sandbox.rec("ready", t=vt.now_ns())

    def fire(i, g, ctx):
        sandbox.rec("fire", i=i, t=vt.now_ns(), s=vt.to_ns(ctx.strategy_dt))

    end = sim.start_task(start, start + datetime.timedelta(seconds=case["length"]), initialize, fire, nfuncs=len(case["tasks"]), argv=argv, before=before)
    dirs = {}
    for v in ("@/cfgrun", "@/a/b", "~/elsewhere", "relrun", "@/optrun", "orel", "~/optrun", "~/jqtrade"):
        dirs[v] = os.path.isdir(os.path.join(cwd, os.path.expanduser(put(v))))
    end["dirs"] = dirs
    return end


def judge(case, res):
    if res.status != "ok":
        raise Violation("the strategy process %s\n%s" % (res.describe(), res.output[-1500:]))
    end, e = res.value, effective(case)
    inits = [x for x in res.trace if x["k"] == "init"]
    text = "file %r, options %r, path %r: " % ({k: (v, h) for k, v, h in zip(case["order"], [case["cfg"][k] for k in case["order"]], case["hows"])}, case["opt"], case["path"])
    failed = end["end"] == "exception" or (end["end"] == "exit" and end["msg"] not in ("0", "None"))
    if case["fault"]:
        if not failed:
            raise Violation("start_task did not fail although the configuration file is %s; it was initialised: %s" % (
                {"missing": "missing", "nofile": "missing", "raises": "raising an error", "syntax": "not valid Python"}[case["fault"]], bool(inits)))
        if inits:
            raise Violation("process_initialize ran although the configuration file is unusable (%s)" % case["fault"])
        return Outcome(True, ["fault " + case["fault"]], {"case": case, "error": "%s: %s" % (end["exc"], end["msg"])})
    if not inits:
        raise Violation(text + "the strategy was not initialised: %s: %s\n%s" % (end["exc"], end["msg"], end["tb"]))
    setup_account = case["cfg"].get("SCHEDULER_SETUP_ACCOUNT", True)
    if setup_account and len(inits[0]["names"]) != 5:
        raise Violation(text + "the account API is missing, there is only %s" % inits[0]["names"])
    if not setup_account and inits[0]["names"] and case["opt"].get("use_account") is not True:
        raise Violation(text + "the account module is switched off but the strategy has %s" % inits[0]["names"])
    gates = [x["which"] for x in res.trace if x["k"] == "gate"]
    if e["account"] and not e["gate"]:
        if not failed or gates:
            raise Violation(text + "there is no trade gate but the start did not fail (gates set up: %s)" % gates)
        return Outcome(True, ["no gate"], {"case": case})
    want = [e["gate"]] if e["account"] else []
    if gates != want:
        raise Violation(text + "trade gates set up: %s, expected %s; %s: %s" % (gates, want, end["exc"], end["msg"]))
    if end["end"] != "return":
        raise Violation(text + "start_task failed with %s: %s\n%s" % (end["exc"], end["msg"], end["tb"]))
    sets = [x for x in res.trace if x["k"] == "set"]
    if (sets[0]["account"] is True) != e["account"]:
        raise Violation(text + "account access gives %s, expected %s" % (sets[0]["account"], e["account"]))
    for d, there in end["dirs"].items():
        if there != (d == e["runtime"]):
            raise Violation(text + "runtime directory %s %s" % (d, "was made" if there else "is missing"))
    try:
        c03.judge({"bad": None, "tasks": case["tasks"], "period": e["market"], "start": case["start"], "via": "x"}, res)
        if e["account"]:
            end_t = sim.un(case["start"]) + datetime.timedelta(seconds=case["length"])
            c14.judge({"start": case["start"], "days": 1, "end": case["length"], "interval": e["interval"], "period": e["sync_period"], "balance": e["balance"], "order": e["orders"], "from": "x", "fail": None}, res)
        elif any(x["k"] == "sync" for x in res.trace):
            raise Violation("synchronised without the account module")
    except Violation as v:
        raise Violation(text + str(v))
    nt = bool(case["cfg"]) and (len(case["cfg"]) < 9)
    return Outcome(nt, ["setting " + k for k in case["cfg"]] + ["how " + h for h in case["hows"]] + ["overridden" for k, o in OVER.items() if k in case["cfg"] and o in case["opt"]] + ["account" if e["account"] else "no account"],
                   {"case": case, "syncs": sum(x["k"] == "sync" for x in res.trace), "firings": sum(x["k"] == "fire" for x in res.trace)})


OVER = {"SCHEDULER_MARKET_PERIOD": "market_period", "SCHEDULER_RUNTIME_DIR": "runtime_dir", "SCHEDULER_SETUP_ACCOUNT": "use_account", "ACCOUNT_SYNC_BALANCE": "sync_balance", "ACCOUNT_SYNC_ORDER": "sync_order",
        "ACCOUNT_SYNC_INTERNAL": "sync_internal", "ACCOUNT_SYNC_PERIOD": "sync_period"}


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
