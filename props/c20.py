"""C20: a task name runs once per machine, and task info agrees with the command line."""
import datetime
import io
import os
import sys

from hypothesis import strategies as st

from harness import procs, sandbox, sim
from harness.core import Outcome, Violation
from harness.gens import mix
from props.c19 import LOOKALIKES, parse_listing

ID = "C20"
LEVEL = "exploration"
RULE = ("A case is a set of intended options put into a command line in a generated form (short, long, joined, '=', abbreviated, any order, given twice), a wrapper chain and a table of other processes. get_tasks reports on a process with that command "
        "line, and the real start_task is run with it while the table holds the other tasks: it must take the intended options (strategy file, log file, environment, debug, name), report the same, and start exactly if no other task has the name. "
        "Non-trivial: another task was running, with the same name or one that differs.")
ASSUMPTIONS = ["Values contain no line breaks.", "Command lines the command's own parser refuses are not counted.", "A task of the same name that vanishes meanwhile may or may not block the start."]
QUICK = 350
THOROUGH = 20000

codes = st.sampled_from(["vs_demo.py", "vs_demo.py", "./vs_demo.py", "sub/vs_demo.py", "策略v.py", "my strat.py", "vs-1.py", "@/vs_demo.py", "@/sub dir/vs=x.py", "vstart_task.py"])
outs = mix(st.none(), st.sampled_from(["out.log", "./o ut.log", "sub/日志.log", "a=b.log", "-o.log", "--debug", "@/abs.log", "start_task"]))
envs = mix(st.none(), st.sampled_from(["VA=1", "VA=1;VB=2", "VA=x=y;", "VA=中 文", "VA=-1;VB=--debug", "-VA=1", "VA=;VB= 2 "]))
configs = mix(st.none(), st.none(), st.sampled_from(["cfg.py", "./c fg.py", "@/cfg.py"]))


@st.composite
def cases(draw, tier):
    o = draw(procs.options(code=codes, out=outs, env=envs, config=configs))
    others = []
    for _ in range(draw(st.integers(0, 3))):
        n = draw(mix(st.just(o["name"]), procs.names, st.sampled_from([o["name"] + "1", o["name"] + " ", o["name"][:-1], o["name"].upper(), " " + o["name"]])))
        oo = draw(procs.options(name=st.just(n)))
        others.append({"opt": oo, "argv": draw(procs.argv(oo)), "prefix": draw(st.sampled_from(procs.PREFIXES)), "wrap": draw(st.sampled_from([None, None, None] + procs.WRAPPERS)),
                       "vanish": draw(st.sampled_from([None, None, None, None, 0, 1, 2, 3])), "host": draw(st.sampled_from([None, None, 0, 1])), "forks": draw(st.sampled_from([0, 0, 0, 1, 2]))})
    return {"opt": o, "argv": draw(procs.argv(o)), "prefix": draw(st.sampled_from(procs.PREFIXES)), "wraps": draw(st.lists(st.sampled_from(procs.WRAPPERS), max_size=2)), "others": others,
            "look": draw(st.lists(st.sampled_from(LOOKALIKES), max_size=2)), "low": draw(st.booleans()), "host": draw(st.sampled_from([None, None, 0, 1, 2]))}


def strategy(tier):
    return cases(tier)


def simulate(case):
    from jqtrade.__main__ import main
    cwd = os.getcwd()

    def put(v):
        return v if v is None else v.replace("@", cwd) if v.startswith("@/") else v

    opt = {k: put(v) if isinstance(v, str) else v for k, v in case["opt"].items()}
    argv = [a.replace("@/", cwd + "/") for a in case["argv"]]
    for d in ("sub", "sub dir"):
        os.makedirs(d, exist_ok=True)
    if opt["config"]:
        with open(opt["config"], "w") as f:
            f.write("SCHEDULER_RUNTIME_DIR = %r\n" % os.path.join(cwd, "cfgrun"))
    # what get_tasks says about a process with this command line
    procs.install([{"pid": 5000500, "ppid": 1, "name": "python3", "cmdline": case["prefix"] + ["start_task"] + argv}], kill=False)
    sys.argv = ["jqtrade", "get_tasks"]
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        main()
    finally:
        text, sys.stdout = sys.stdout.getvalue(), old
    shown = parse_listing(text)
    # the real start
    me, parent = os.getpid(), os.getppid()
    base = 2 if case["low"] else 5000000

    def after(n):
        n += 1
        while n in (me, parent):
            n += 1
        return n

    table, pid, tasks = [], base, []

    def host(i, name):
        """pid of the task (with another name) that starts this one"""
        return tasks[i][0] if i is not None and i < len(tasks) and tasks[i][1] != name else None

    chain = []
    for i in range(len(case["wraps"])):
        chain.append([x for w in case["wraps"][i:] for x in w] + case["prefix"] + ["start_task"] + argv)
    cmd = case["prefix"] + ["start_task"] + argv
    table.append({"pid": me, "ppid": parent, "name": "python3", "cmdline": cmd})
    hosted = not chain and case["host"] is not None and case["host"] < len(case["others"]) and case["others"][case["host"]]["opt"]["name"] != opt["name"]
    if chain:
        table.append({"pid": parent, "ppid": 1 if len(chain) == 1 else 5000090, "name": chain[-1][0], "cmdline": chain[-1]})
        if len(chain) > 1:
            table.append({"pid": 5000090, "ppid": 1, "name": chain[0][0], "cmdline": chain[0]})
    for o in case["others"]:
        c = o["prefix"] + ["start_task"] + o["argv"]
        ppid = host(o["host"], o["opt"]["name"]) or 1
        if o["wrap"]:
            pid = after(pid)
            table.append({"pid": pid, "ppid": ppid, "name": o["wrap"][0], "cmdline": o["wrap"] + c})
            ppid = pid
        real = parent if hosted and len(tasks) == case["host"] else after(pid)      # the strategy that runs this start
        pid = max(pid, real) if real != parent else pid
        tasks.append((real, o["opt"]["name"]))
        table.append(dict({"pid": real, "ppid": ppid, "name": "python3", "cmdline": c}, **({"vanish": o["vanish"]} if o["vanish"] is not None else {})))
        if o["vanish"] is None:
            for _ in range(o["forks"]):
                pid = after(pid)
                table.append({"pid": pid, "ppid": real, "name": "python3", "cmdline": c})
    for c in case["look"]:
        pid = after(pid)
        table.append({"pid": pid, "ppid": 1, "name": "x", "cmdline": c})
    environ = dict(os.environ)

    def initialize(g, ctx):
        g["print"]("MARK-print")
        g["log"].debug("MARK-debug")
        g["log"].info("MARK-info")
        try:
            from jqtrade.scheduler.context import Context
            name = Context.get_instance().task_name
        except Exception:
            name = None
        sandbox.rec("started", file=g["__file__"], env={k: v for k, v in os.environ.items() if environ.get(k) != v}, name=name)
        g["set_options"](use_account=False, **({} if opt["config"] else {"runtime_dir": os.path.join(cwd, "run")}))

    start = datetime.datetime(2024, 2, 28, 10, 0, 0, 500000)
    end = sim.start_task(start, start + datetime.timedelta(seconds=5), initialize, nfuncs=0, code=opt["code"], args=argv, before=lambda: procs.install(table, kill=False))
    text = ""
    if opt["out"]:
        try:
            with open(opt["out"], encoding="utf-8", errors="replace") as f:
                text = f.read()
        except OSError as e:
            text = None
    return {"shown": shown, "end": end, "out": text, "cfgrun": os.path.isdir(os.path.join(cwd, "cfgrun")), "opt": opt, "cmd": cmd}


def judge(case, res):
    if res.status != "ok":
        raise Violation("the command %s\n%s" % (res.describe(), res.output[-1500:]))
    v, o = res.value, res.value["opt"]
    desc = "command line %s, options %s: " % (v["cmd"], o)
    if v["end"]["end"] == "exit" and v["end"]["msg"] == "2":
        return Outcome(False, ["refused by the parser"])
    want = {k: str(o[k]) for k in ("name", "code", "out", "env", "debug")}
    if len(v["shown"]) != 1:
        raise Violation(desc + "get_tasks lists %s" % v["shown"])
    bad = {k: (v["shown"][0].get(k), want[k]) for k in want if v["shown"][0].get(k) != want[k]}
    if bad:
        raise Violation(desc + "get_tasks shows (shown, expected) %s" % bad)
    same = [p for p in case["others"] if p["opt"]["name"] == o["name"]]
    must, may = any(p["vanish"] is None for p in same), bool(same)
    started = [e for e in res.trace if e["k"] == "started"]
    table = [(p["prefix"], p["argv"], p["wrap"], p["vanish"]) for p in case["others"]]
    if v["end"]["end"] == "exception" and v["end"]["exc"] == "TaskError":
        if started:
            raise Violation(desc + "the refused strategy was run")
        if not may:
            raise Violation(desc + "refused to start although no running task has the name: %s" % table)
    elif v["end"]["end"] != "return" or len(started) != 1:
        raise Violation(desc + "start_task ended with %s %s\n%s" % (v["end"]["exc"], v["end"]["msg"], v["end"]["tb"]))
    else:
        if must:
            raise Violation(desc + "started although a task of the name is running: %s" % table)
        s = started[0]
        if os.path.normpath(os.path.join("/cwd", s["file"])).split("/")[-1] != os.path.basename(o["code"]):
            raise Violation(desc + "ran %s" % s["file"])
        if s["name"] is not None and s["name"] != o["name"]:
            raise Violation(desc + "runs under the name %r" % s["name"])
        env = {}
        for part in (o["env"] or "").split(";"):
            if part.strip():
                a, b = part.split("=", 1)
                env[a.strip()] = b.strip()
        if s["env"] != env:
            raise Violation(desc + "changed the environment by %s" % s["env"])
        text = res.output if not o["out"] else v["out"]
        if text is None or "MARK-print" not in text or "MARK-info" not in text or ("MARK-debug" in text) != o["debug"]:
            raise Violation(desc + "the log does not hold what was printed, or not at the level: %r" % text)
        if o["out"] and "MARK" in res.output:
            raise Violation(desc + "output on standard output")
        if o["config"] and not v["cfgrun"]:
            raise Violation(desc + "the configuration was not used")
    return Outcome(bool(case["others"]), ["same name" if must else "vanishing same name" if may else "other names" if case["others"] else "alone"] + ["wrapped"] * bool(case["wraps"]), {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
