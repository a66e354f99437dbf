"""C23: API calls are refused outside the phase or set-up that allows them."""
import datetime
import functools
import os

from hypothesis import strategies as st

from harness import agen, gate, gen, sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix
from props import c03, c14

ID = "C23"
LEVEL = "exploration"
RULE = ("A case places run_daily, set_options, account calls and portfolio reads (called directly, through a name kept from an earlier phase, or through a helper) at generated points: in process_initialize before and after set_options, and in scheduled callbacks; with the account "
        "loaded, switched off by option, by the configuration file, or never set up. Each call must succeed or raise InvalidCall as the phase and set-up demand, and refused calls must leave no trace: firings, synchronisations, orders, the gate and directories stay as without them. "
        "Other cases leave out process_initialize or the account number, let process_initialize fail or call the API at module level: the start must fail and nothing may run. Non-trivial: at least one refused and one accepted call, or a failed start.")
ASSUMPTIONS = ["A batch call without the account module may report its orders as failed instead of raising.", "Calls from other threads, and set_options called twice in process_initialize, are left open.",
               "At module level the API does not exist yet: any error is accepted."]
QUICK = 220
THOROUGH = 4000

ACC = ["order", "order", "cancel_order", "get_orders", "batch_submit_orders", "batch_cancel_orders", "sync_balance", "sync_orders", "portfolio", "portfolio"]
PARTS = ["total_value", "available_cash", "locked_cash", "position_value", "long_positions", "short_positions", None]
FUNCS = ["f", "f", "lambda", "partial", "method", "object", "builtin", "nonsense"]


@st.composite
def calls(draw, cb):
    what = draw(st.sampled_from(["run_daily", "run_daily", "set_options", "acc", "acc", "acc"] if cb else ["acc", "acc", "run_daily"]))
    how = draw(st.sampled_from(["direct", "direct", "kept", "helper"]))
    if what == "run_daily":
        return ["run_daily", how, draw(st.sampled_from(FUNCS)) if cb else "f", draw(mix(gen.exprs(3), st.just("every_minute"), st.sampled_from(["10:00", "open+1m"] + (["noon", "", "25:00"] if cb else []))))]
    if what == "set_options":
        return ["set_options", how, draw(st.sampled_from([{}, {"use_account": False}, {"use_account": True, "account_no": "2"}, {"runtime_dir": "refused", "use_account": False}, {"market_period": [["10:00:00", "11:00:00"]]},
                                                          {"sync_internal": 1, "account_no": "1"}, {"account_no": "9", "sync_balance": False, "sync_order": False}]))]
    name = draw(st.sampled_from(ACC))
    arg = draw(agen.orders()) if name == "order" else draw(st.lists(agen.orders(), min_size=1, max_size=3)) if name == "batch_submit_orders" else draw(st.sampled_from(PARTS)) if name == "portfolio" else None
    return [name, how, arg]


@st.composite
def cases(draw, tier):
    start = sim.un(draw(gen.dates).isoformat() + "T%s.500000" % draw(st.sampled_from(["09:29:00", "08:00:10", "14:58:30", "00:10:00"])))
    c = {"start": sim.iso(start), "setup": draw(st.sampled_from(["on", "on", "on", "off", "off", "config", "never"])), "bad": draw(st.sampled_from([None] * 6 + ["no_init", "no_account", "raises", "module"])),
         "before": draw(st.lists(calls(False), max_size=3)), "after": draw(st.lists(calls(False), max_size=3)), "cb": draw(st.lists(calls(True), min_size=1, max_size=6)), "at": draw(st.integers(0, 3)),
         "hours": draw(st.sampled_from([1, 8, 26, 30])), "sync": draw(st.sampled_from([120, 600, 1800, 3600])), "arg": draw(st.integers(0, 5)), "exc": draw(st.sampled_from(["ValueError", "InvalidCall", "KeyError", "SystemExit"]))}
    c["tick"] = (start + datetime.timedelta(seconds=draw(st.integers(5, 50)))).strftime("%H:%M:%S")
    if draw(st.booleans()):
        c["cb"].append(["set_options", "direct", {"runtime_dir": "refused", "use_account": False, "market_period": [["10:00:00", "11:00:00"]]}])
    return c


def strategy(tier):
    return cases(tier)


def simulate(case):
    start = sim.un(case["start"])
    cwd = os.getcwd()
    argv, body = [], "\n\ndef call_helper(name, *args, **kw):\n    return globals()[name](*args, **kw)\n"
    if case["setup"] == "config":
        with open("cfg.py", "w") as f:
            f.write("SCHEDULER_SETUP_ACCOUNT = False\n")
        argv = ["--config", "cfg.py"]
    if case["bad"] == "no_init":
        body += ["\n\ndel process_initialize\n", "\n\ninitialize = process_initialize\ndel process_initialize\n"][case["arg"] % 2]
    elif case["bad"] == "module":
        body += "\n\n" + ["run_daily(f0, 'open')", "set_options(account_no='1')", "order('000001.XSHE', 100)", "log.info('x')", "get_orders()", "run_daily(f0, '10:00')"][case["arg"]] + "\n"
    kept, state = {}, {"n": 0, "tasks": []}

    def setup_record(g, ctx):
        pass

    def do(g, ctx, phase, call):
        name, how = call[0], call[1]
        err = None
        value = None

        def api(n):
            if how == "kept" and n in kept:
                return kept[n]
            if how == "helper":
                if n not in g:
                    raise NameError(n)
                return lambda *a, **k: g["call_helper"](n, *a, **k)
            if n not in g:
                raise NameError(n)
            return g[n]

        try:
            if name == "run_daily":
                class Holder(object):
                    def m(self, context):
                        sandbox.rec("wrong", what="method")

                    def __call__(self, context):
                        sandbox.rec("wrong", what="object")
                i = len(state["tasks"])
                f = {"f": g["f%d" % (i if phase != "cb" else 0)], "lambda": lambda context: sandbox.rec("wrong", what="lambda"), "partial": functools.partial(sandbox.rec, "wrong"), "method": Holder().m, "object": Holder(), "builtin": print,
                     "nonsense": "f0"}[call[2]]
                api("run_daily")(f, call[3])
                if phase != "cb":
                    state["tasks"].append(call[3])
            elif name == "set_options":
                o = dict(call[2])
                if "market_period" in o:
                    o["market_period"] = [tuple(p) for p in o["market_period"]]
                api("set_options")(**o)
            elif name == "portfolio":
                p = ctx.portfolio
                if call[2]:
                    getattr(p, call[2])
            elif name == "order":
                a, kw = agen.order_args(g if "MarketOrderStyle" in g else styles(), call[2])
                value = api("order")(*a, **kw)
            elif name == "batch_submit_orders":
                value = api(name)([{"code": o["code"], "amount": o["amount"]} for o in call[2]])
                if all(v is None for v in value):
                    err = "all None"
            elif name == "cancel_order":
                api(name)("42")
            elif name == "batch_cancel_orders":
                api(name)(["42"])
            else:
                value = api(name)()
        except Exception as e:
            err = type(e).__name__
        sandbox.rec("call", phase=phase, call=call, err=err)

    def styles():
        from jqtrade.account.order import LimitOrderStyle, MarketOrderStyle
        return {"LimitOrderStyle": LimitOrderStyle, "MarketOrderStyle": MarketOrderStyle}

    def initialize(g, ctx):
        sandbox.rec("init")
        for n in ("run_daily", "set_options", "order", "cancel_order", "get_orders", "batch_submit_orders", "batch_cancel_orders", "sync_balance", "sync_orders"):
            if n in g:
                kept[n] = g[n]
        for call in case["before"]:
            do(g, ctx, "before", call)
        o = {"runtime_dir": "run", "sync_internal": case["sync"]}
        if case["bad"] == "no_account":
            g["set_options"](**[{}, {"use_account": True}, {"runtime_dir": "run"}, {"account": "1"}, {"sync_internal": 5}, {"use_account": 1}][case["arg"]])
        elif case["setup"] == "on":
            g["set_options"](account_no="1", **o)
        elif case["setup"] == "off":
            g["set_options"](use_account=False, **o)
        elif case["setup"] == "config":
            g["set_options"](**o)
        for call in case["after"]:
            do(g, ctx, "after", call)
        i = len(state["tasks"])
        state["tasks"].append(case["tick"])
        state["tick"] = i
        g["run_daily"](g["f%d" % i], case["tick"])
        if case["bad"] == "raises":
            from jqtrade.common.exceptions import InvalidCall
            raise {"ValueError": ValueError, "InvalidCall": InvalidCall, "KeyError": KeyError, "SystemExit": SystemExit}[case["exc"]]("boom")
        sandbox.rec("ready", t=vt.now_ns())

    def fire(i, g, ctx):
        sandbox.rec("fire", i=i, t=vt.now_ns(), s=vt.to_ns(ctx.strategy_dt))
        if i == state["tick"]:
            for call in case["cb"]:
                do(g, ctx, "cb", call)

    def before():
        state["book"] = gate.install()

    end = sim.start_task(start, start + datetime.timedelta(hours=case["hours"]), initialize, fire, nfuncs=8, argv=argv, body=body, before=before)
    end.update(tasks=state["tasks"], gate=state["book"].calls, dirs={d: os.path.isdir(os.path.join(cwd, d)) for d in ("run", "refused")}, home=os.path.isdir(os.path.join(os.environ["HOME"], "jqtrade")))
    return end


def judge(case, res):
    if res.status != "ok":
        raise Violation("the strategy process %s\n%s" % (res.describe(), res.output[-1500:]))
    end = res.value
    inits = [x for x in res.trace if x["k"] == "init"]
    fires = [x for x in res.trace if x["k"] == "fire"]
    bad = case["bad"]
    if bad == "no_account" and case["setup"] == "config" and case["arg"] not in (1, 5):
        bad = None       # without the account module no number is needed
        return Outcome(False, ["skipped"])
    if bad:
        text = {"no_init": "has no process_initialize", "no_account": "gives no account number", "raises": "fails in process_initialize with " + case["exc"], "module": "calls the API at module level"}[bad]
        if end["end"] == "return" or (end["end"] == "exit" and end["msg"] in ("0", "None")):
            raise Violation("start_task did not fail although the strategy %s; fired: %s" % (text, [str(vt.from_ns(e["t"])) for e in fires[:2]]))
        if fires:
            raise Violation("the strategy %s, yet its tasks ran" % text)
        if bad in ("no_init", "module") and inits:
            raise Violation("the strategy %s, yet process_initialize ran" % text)
        return Outcome(True, ["start fails: " + bad], {"case": case, "error": "%s: %s" % (end["exc"], end["msg"])})
    if end["end"] != "return":
        raise Violation("start_task failed with %s: %s\n%s" % (end["exc"], end["msg"], end["tb"]))
    labels, ok, refused = [], 0, 0
    expect_orders = []
    for r in [x for x in res.trace if x["k"] == "call"]:
        name, phase, err = r["call"][0], r["phase"], r["err"]
        where = {"before": "in process_initialize before set_options", "after": "in process_initialize", "cb": "in a scheduled callback"}[phase]
        loaded = case["setup"] == "on" and phase != "before"
        text = "%s %s (%s), account %s: " % (name, where, r["call"][1:], {"on": "loaded", "off": "switched off", "config": "switched off in the configuration", "never": "never set up"}[case["setup"]])
        if name == "run_daily":
            allowed = phase != "cb"
        elif name == "set_options":
            allowed = False
        else:
            allowed = loaded
        if allowed:
            if err and err != "all None":
                raise Violation(text + "raised " + err)
            if name == "order":
                expect_orders.append(1)
            elif name == "batch_submit_orders":
                expect_orders.extend([1] * len(r["call"][2]))
                if err:
                    raise Violation(text + "placed nothing")
            ok += 1
        else:
            want = ("InvalidCall",)
            if case["setup"] == "config" and name not in ("run_daily", "set_options", "portfolio"):
                want = ("NameError", "InvalidCall")
            if name.startswith("batch_"):
                want += ("all None",)
            if err not in want:
                raise Violation(text + ("was not refused" if err is None else "raised %s instead of InvalidCall" % err))
            refused += 1
            labels.append("refused %s %s" % (name, phase))
    # refused calls leave nothing behind
    if any(x["k"] == "wrong" for x in res.trace):
        raise Violation("a function whose run_daily was refused ran: %s" % [x for x in res.trace if x["k"] == "wrong"][0])
    if end["dirs"]["refused"]:
        raise Violation("a refused set_options made a directory")
    setups = [x for x in end["gate"] if x[0] == "setup"]
    if len(setups) != (1 if case["setup"] == "on" else 0) or (setups and setups[0][1].get("account_no") != "1"):
        raise Violation("the trade gate was set up with %s although only the account %s was set" % (setups, "1" if case["setup"] == "on" else "-"))
    placed = [x for x in end["gate"] if x[0] == "order"]
    if len(placed) != len(expect_orders):
        raise Violation("the trade gate got %d orders, %d were accepted" % (len(placed), len(expect_orders)))
    c03.judge({"bad": None, "tasks": end["tasks"], "period": None, "start": case["start"], "via": "x"}, res)
    syncs = [x for x in res.trace if x["k"] == "sync"]
    if case["setup"] != "on" and syncs:
        raise Violation("synchronised although the account is not loaded")
    manual = any(x["call"][0] in ("sync_balance", "sync_orders") for x in res.trace if x["k"] == "call")
    if case["setup"] == "on" and not manual and not any(c[0].startswith("sync") for c in case["before"] + case["after"] + case["cb"]):
        c14.judge({"start": case["start"], "days": 1, "end": case["hours"] * 3600, "interval": case["sync"], "period": None, "balance": True, "order": True, "from": "x", "fail": None}, res)
    return Outcome(bool(ok and refused), labels + ["account " + case["setup"]], {"case": case, "accepted": ok, "refused": refused})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
