"""C19: listing and stopping tasks act on exactly the right processes."""
import io
import os
import re
import signal
import sys

from hypothesis import strategies as st

from harness import procs, sandbox
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C19"
LEVEL = "exploration"
RULE = ("A case is a process table (tasks under all command-line forms, with and without wrapper processes and chains of them, tasks started by other tasks, worker processes forked by tasks, look-alikes, the calling process itself, processes that vanish at any look or whose command line is not accessible) and a "
        "list of get_tasks and stop_task calls; what is printed and who is signalled is compared with the table. Non-trivial: a stop_task call that selected some of the tasks and not others, or met a vanishing one.")
ASSUMPTIONS = ["No other program has 'jqtrade' and 'start_task' as adjacent arguments of its command line.", "A wrapper whose task vanishes meanwhile, or a process it forked, may be taken for the task.", "A task that another task started has another name.", "One way of selecting per call, or --all with others beside it (which are then ignored)."]
QUICK = 300
THOROUGH = 20000

LOOKALIKES = [
    ["vim", "/home/u/jqtrade/start_task.py"], ["sh", "-c", "jqtrade start_task -n demo -c x.py"], ["grep", "jqtrade start_task"], ["tail", "-f", "/var/log/jqtrade_start_task.log"],
    ["/usr/bin/python3", "/usr/local/bin/jqtrade", "get_tasks"], ["/usr/bin/python3", "/usr/local/bin/jqtrade", "stop_task", "-n", "demo"], ["/usr/bin/python3", "/usr/local/bin/jqtrade", "stop_task", "-n", "start_task"],
    ["python", "start_task.py", "-n", "demo"], ["python", "-m", "other", "start_task", "-n", "demo", "-c", "x.py"], [], ["bash"], ["python"], ["start_task", "-n", "demo"], ["jqtrade"], ["python", "-m", "jqtrade", "-V"],
    ["git", "commit", "-m", "jqtrade: start_task -n demo"], ["less", "start_task", "jqtrade"], ["python", "trade.py", "start_task", "-n", "demo", "--tag", "jqtrade"], ["/sbin/init"], ["systemd", "start_task", "demo"]]


@st.composite
def tables(draw):
    out, pid = [], [5000100]          # above every real pid, our own among them

    def new(cmd, ppid, name=None, **kw):
        pid[0] += draw(st.integers(1, 40))
        p = dict({"pid": pid[0], "ppid": ppid, "name": name or (os.path.basename(cmd[0]) if cmd else "kworker"), "cmdline": cmd}, **kw)
        out.append(p)
        return p

    for _ in range(draw(st.integers(0, 5)) if draw(st.integers(0, 11)) else 14):
        o = draw(procs.options(name=mix(st.sampled_from(["demo", "demo", "demo1"]), procs.names)))
        cmd = draw(st.sampled_from(procs.PREFIXES)) + ["start_task"] + draw(procs.argv(o))
        ppid, chain = 1, draw(st.integers(0, 9))
        hosts = [p for p in out if p.get("role") == "task" and p["opt"]["name"] != o["name"]]
        if hosts and draw(st.integers(0, 2)) == 0:          # a strategy that starts another one
            ppid = draw(st.sampled_from(hosts))["pid"]
        wraps = []
        for w in draw(st.lists(st.sampled_from(procs.WRAPPERS), min_size=1, max_size=2)) if chain >= 6 else []:
            wraps = wraps + [w]
        for i in range(len(wraps)):
            full = [x for w in wraps[i:] for x in w] + cmd
            ppid = new(full, ppid, role="wrapper")["pid"]
            if wraps[i][0] == "sudo" and draw(st.booleans()):   # sudo with a terminal of its own runs itself once more
                ppid = new(full, ppid, role="wrapper")["pid"]
        vanish = draw(st.sampled_from([None] * 5 + [0, 1, 2, 3, 4, 5]))
        t = new(cmd, ppid, role="task", opt=o)
        if vanish is not None:
            t.update(vanish=vanish, zombie=draw(st.booleans()))
            for p in out:
                if p["pid"] == ppid and p.get("role") == "wrapper" or (p.get("role") == "wrapper" and p["cmdline"][-len(cmd):] == cmd):
                    p["role"] = "open"
        fork = t["pid"]
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2]))):   # worker processes it forked: same command line
            fork = new(cmd, draw(st.sampled_from([fork, t["pid"]])), role="fork" if vanish is None else "open")["pid"]
    for _ in range(draw(st.integers(0, 5))):
        p = new(draw(st.sampled_from(LOOKALIKES)), 1, role="other")
        if draw(st.integers(0, 4)) == 0:
            if "python" not in p["name"]:
                p["denied"] = True
        elif draw(st.integers(0, 4)) == 0:
            p["vanish"] = draw(st.integers(0, 3))
    if draw(st.booleans()) and any(p["role"] == "task" for p in out):     # a shell that is the child of a task
        t = draw(st.sampled_from([p for p in out if p["role"] == "task"]))
        new(draw(st.sampled_from([["bash"], ["sleep", "5"], ["python", "helper.py"]])), t["pid"], role="other")
    order = draw(st.permutations(range(len(out))))
    ids = sorted(p["pid"] for p in out)
    remap = {out[j]["pid"]: ids[i] for i, j in enumerate(order)}       # pids in any order: a parent may have the higher one
    for p in out:
        p["pid"] = remap[p["pid"]]
        p["ppid"] = remap.get(p["ppid"], p["ppid"])
    return out


call = mix(st.just(["get"]), st.builds(lambda n, f, l: ["name", n, f, l], mix(st.integers(0, 9), st.integers(0, 9), procs.names.filter(bool)), st.booleans(), st.booleans()),
                 st.builds(lambda n, f, l: ["pid", n, f, l], mix(st.integers(0, 15), st.sampled_from(["none", "1", "self", "part"])), st.booleans(), st.booleans()), st.builds(lambda x, f: ["all", x, f, True], st.sampled_from([0, 0, 0, ["-n", 0], ["-n", 1], ["-n", "nobody"], ["-p", 0], ["-p", 1], ["-p", 5999998]]), st.booleans()), st.just(["nothing", 0, False, True]))


def strategy(tier):
    return st.fixed_dictionaries({"table": tables(), "calls": st.lists(call, min_size=1, max_size=4)})


def selection(case, c):
    """the argument of a call"""
    tasks = [p for p in case["table"] if p.get("role") == "task"]
    if c[0] == "name":
        if isinstance(c[1], int):
            return tasks[c[1] % len(tasks)]["opt"]["name"] if tasks else "demo"
        return c[1]
    if c[0] == "pid":
        if isinstance(c[1], int):
            return case["table"][c[1] % len(case["table"])]["pid"] if case["table"] else 77
        if c[1] == "part":             # the first digits of the pid of a task
            return tasks[0]["pid"] // 10 if tasks else 77
        return {"none": 5999999, "1": 1, "self": -1}[c[1]]


def simulate(case):
    from jqtrade.__main__ import main
    out = []
    real_kill = os.kill
    for c in case["calls"]:
        me = os.getpid()
        sel = selection(case, c)
        argv = ["jqtrade", "get_tasks"]
        if c[0] != "get":
            argv = ["jqtrade", "stop_task"]
            if c[0] == "name":
                argv += ["--name=%s" % sel] if c[3] or sel.startswith("-") or not sel else ["-n", sel]
            elif c[0] == "pid":
                v = str(me if sel == -1 else sel)
                argv += ["--pid", v] if c[3] else ["-p", v]
            elif c[0] == "all":
                argv += ["--all"]
                if c[1]:                      # with --all the others are documented to be ignored
                    x, tasks = c[1][1], [p for p in case["table"] if p.get("role") == "task"]
                    if isinstance(x, int) and x < 2:
                        t = tasks[x % len(tasks)] if tasks else {"opt": {"name": "demo"}, "pid": 5999998}
                        x = t["opt"]["name"] if c[1][0] == "-n" else t["pid"]
                    if not str(x).startswith("-") and x != "":
                        argv += [c[1][0], str(x)]
            if c[2]:
                argv += ["--force" if c[3] else "-f"]
        t = procs.install([dict(p) for p in case["table"]] + [{"pid": me, "ppid": os.getppid(), "name": "python3", "cmdline": ["/usr/bin/python3", "/usr/local/bin/jqtrade"] + argv[1:]},
                                                           {"pid": os.getppid(), "ppid": 1, "name": "bash", "cmdline": ["bash"]}])
        sys.argv = argv
        old, sys.stdout = sys.stdout, io.StringIO()
        err = None
        try:
            main()
        except BaseException as e:
            err = [type(e).__name__, str(e)]
        text, sys.stdout = sys.stdout.getvalue(), old
        out.append({"text": text, "err": err, "signals": t.signals, "me": me})
    os.kill = real_kill
    return out


FIELDS = {"名称": "name", "pid": "pid", "代码路径": "code", "日志路径": "out", "自定义环境变量": "env", "是否debug模式": "debug"}


def parse_listing(text):
    out, cur = [], {}
    for line in text.split("\n"):
        m = re.match(r"(名称|pid|代码路径|日志路径|自定义环境变量|是否debug模式): (.*)\Z", line, re.S)
        if m:
            if FIELDS[m.group(1)] == "name":
                cur = {}
                out.append(cur)
            cur[FIELDS[m.group(1)]] = m.group(2)
    return out


def judge(case, res):
    if res.status != "ok":
        raise Violation("the command %s\n%s" % (res.describe(), res.output[-1500:]))
    table = {p["pid"]: p for p in case["table"]}
    tasks = {p["pid"]: p for p in case["table"] if p.get("role") == "task"}
    open_ = {p["pid"] for p in case["table"] if p.get("role") == "open"}
    nt = False
    for c, r in zip(case["calls"], res.value):
        sel = selection(case, c)
        desc = "%s %s with the processes %s: " % (c, sel, [(p["pid"], p["ppid"], p["cmdline"], p.get("vanish")) for p in case["table"]])
        stable = {i for i, p in tasks.items() if p.get("vanish") is None}
        if c[0] == "nothing":
            if not r["err"] or r["signals"]:
                raise Violation(desc + "stop_task without a selection gave %s, signals %s" % (r["err"], r["signals"]))
            continue
        if c[0] == "name" and sel == "":
            if r["signals"]:
                raise Violation(desc + "stop_task with an empty name signalled %s" % r["signals"])
            continue
        if r["err"]:
            raise Violation(desc + "raised %s" % r["err"])
        if c[0] == "get":
            if r["signals"]:
                raise Violation(desc + "get_tasks signalled %s" % r["signals"])
            got = parse_listing(r["text"])
            pids = [int(g["pid"]) for g in got if "pid" in g]
            if len(pids) != len(set(pids)) or len(pids) != len(got) or not stable <= set(pids) or not set(pids) <= set(tasks) | open_:
                raise Violation(desc + "get_tasks listed %s, the tasks are %s\n%s" % (pids, sorted(tasks), r["text"]))
            for g in got:
                p = tasks.get(int(g["pid"]))
                if p:
                    want = {k: str(p["opt"][k]) for k in ("name", "code", "out", "env", "debug")}
                    if any(g.get(k) != want[k] for k in want):
                        raise Violation(desc + "get_tasks shows %s for %s" % (g, p["cmdline"]))
            continue
        want = {i for i, p in tasks.items() if c[0] == "all" or (c[0] == "pid" and i == sel) or (c[0] == "name" and p["opt"]["name"] == sel)}
        sig = int(signal.SIGKILL if c[2] else signal.SIGTERM)
        got = [s[0] for s in r["signals"]]
        if any(s[1] != sig for s in r["signals"]):
            raise Violation(desc + "sent %s" % r["signals"])
        may = want | {i for i in open_ if c[0] != "pid" or i == sel}
        if len(got) != len(set(got)) or not want & stable <= set(got) or not set(got) <= may:
            raise Violation(desc + "stop_task signalled %s, selected are %s" % (got, sorted(want)))
        nt |= bool(want and (set(tasks) - want or want - stable))
    return Outcome(nt, sorted({c[0] for c in case["calls"]}) + ["wrappers"] * any(p.get("role") == "wrapper" for p in case["table"]) + ["forks"] * any(p.get("role") == "fork" for p in case["table"]) + ["nested"] * any(p["ppid"] in tasks and p.get("role") == "task" for p in case["table"]) + ["vanishing"] * any("vanish" in p for p in case["table"]), {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
