"""C31: started for real, a strategy runs on time, is listed, and stops when it is told to."""
import datetime
import json
import os
import signal
import subprocess
import time

from hypothesis import strategies as st

from harness import sandbox
from harness.core import PY, REPO, Outcome, Violation
from harness.gens import mix
from props.c19 import parse_listing

ID = "C31"
LEVEL = "exploration"
RULE = ("A case is a sequence of real commands in real time: start_task for two or three tasks with equal, similar or different names (as module or through the installed script, some under a wrapper process, some strategies with a forked worker), several starts of one name at the same moment, get_tasks, "
        "stop_task by name or pid with and without --force, interrupts, some of them while a callback is running. A model says which task must be running: get_tasks shows exactly these, a start is refused exactly when its name is running (of several at the same moment at most one may run), a stop ends exactly the selected one - after the callback under way, unless forced - "
        "and the callbacks run one by one at their due times, never early. Non-trivial: something was stopped while another task kept running, or a start was refused, or a stop came during a callback.")
ASSUMPTIONS = ["All processes run as an unprivileged user in a scratch directory, so that a stop can reach nothing else.", "Signals only after the event loop of the strategy has set up its handlers.", "How late a callback is in real time is not judged (C01 does that in virtual time)."]
QUICK = 5
THOROUGH = 150
NOBODY = 65534
PATIENCE = 45            # seconds; only a machine that is stuck needs that long

STRATEGY = '''# -*- coding: utf-8 -*-
import datetime
import json
import os
import time

BASE, RUN = os.environ["E2E_BASE"], os.environ["E2E_RUN"]
FORK, BUSY = %r, %r


def put(name, text):
    with open(os.path.join(BASE, "." + name), "w") as f:
        f.write(text)
    os.rename(os.path.join(BASE, "." + name), os.path.join(BASE, name))


def note(**kw):
    fd = os.open(os.path.join(BASE, "ev_" + RUN), os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
    os.write(fd, (json.dumps(kw) + "\\n").encode())
    os.close(fd)


def process_initialize(context):
    set_options(use_account=False, runtime_dir=os.path.join(BASE, "run"))
    worker = 0
    if FORK:
        me = os.getpid()
        worker = os.fork()
        if not worker:
            while os.getppid() == me:
                time.sleep(0.02)
            os._exit(0)
    now = datetime.datetime.now().replace(microsecond=0)
    dues = [now + datetime.timedelta(seconds=3 + 2 * i) for i in range(25)]
    for d in dues:
        run_daily(tick, d.strftime("%%H:%%M:%%S"))
    put("ready_" + RUN, json.dumps({"pid": os.getpid(), "worker": worker, "dues": [d.isoformat() for d in dues]}))


def tick(context):
    note(k="begin", due=context.strategy_dt.isoformat(), now=datetime.datetime.now().isoformat())
    time.sleep(BUSY)
    note(k="end", due=context.strategy_dt.isoformat())
'''

slot = st.fixed_dictionaries({"name": st.sampled_from(["", "", "1", " x", "策略", ".py"]), "script": st.booleans(), "wrap": st.sampled_from([False, False, True]), "fork": st.sampled_from([False, False, True]), "busy": st.sampled_from([0.05, 0.6, 0.6]),
                              "form": st.integers(0, 3), "out": st.sampled_from([None, None, "o.log", "日 志.log"]), "debug": st.booleans()})
op = mix(st.builds(lambda i: ["start", i], st.integers(0, 2)), st.builds(lambda i: ["start", i], st.integers(0, 2)), st.just(["list"]),
               st.builds(lambda i, k: ["race", i, k], st.integers(0, 2), st.sampled_from([2, 2, 3])),
               st.builds(lambda i, h, f: ["stop", i, h, f], st.integers(0, 2), st.sampled_from(["name", "name", "pid"]), st.sampled_from([False, False, True])),
               st.builds(lambda i, h, f: ["during", i, h, f], st.integers(0, 2), st.sampled_from(["name", "pid", "int"]), st.sampled_from([False, False, True])))


@st.composite
def cases(draw, tier):
    return {"slots": draw(st.lists(slot, min_size=3, max_size=3)), "ops": [["start", 0]] + draw(st.lists(op, min_size=3, max_size=7))}


def strategy(tier):
    return cases(tier)


class Stuck(Exception):
    pass


def simulate(case, token):
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    base = os.getcwd()
    sandbox.open_trace()
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    env.update(PYTHONPATH=REPO, HOME=base, PYTHONDONTWRITEBYTECODE="1", E2E_BASE=base)
    alive, runs, left = {}, [], []
    out = {"labels": set(), "bad": None, "nt": False}

    def cmd(script):
        return [PY, os.path.join(os.path.dirname(PY), "jqtrade")] if script and os.path.exists(os.path.join(os.path.dirname(PY), "jqtrade")) else [PY, "-m", "jqtrade"]

    def name(i):
        return token + case["slots"][i]["name"]

    def wait(what, cond, limit=PATIENCE):
        end = time.monotonic() + limit
        while not cond():
            if time.monotonic() > end:
                raise Stuck(what)
            time.sleep(0.01)

    def gone(pid):
        try:
            with open("/proc/%d/stat" % pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "Z"
        except OSError:
            return True

    def catches(pid):
        try:
            with open("/proc/%d/status" % pid) as f:
                for l in f:
                    if l.startswith("SigCgt:"):
                        return bool(int(l.split()[1], 16) >> (signal.SIGTERM - 1) & 1)
        except OSError:
            return True
        return True

    def events(r):
        try:
            with open(os.path.join(base, "ev_%d" % r["run"])) as f:
                return [json.loads(l) for l in f.read().splitlines(True) if l.endswith("\n")]
        except OSError:
            return []

    def tool(*args):
        try:
            p = subprocess.run(cmd(len(runs) % 2) + list(args), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=PATIENCE)
        except subprocess.TimeoutExpired:
            raise Stuck("%s does not end" % (args,))
        text = p.stdout.decode("utf-8", "replace")
        if p.returncode:
            raise Violation("%s ended with code %s: %s" % (args, p.returncode, text[-1500:]))
        return text

    def check_alive(after):
        for n, r in alive.items():
            if r["proc"].poll() is not None or gone(r["pid"]):
                raise Violation("the task %r ended although %s (code %s): %s" % (n, after, r["proc"].returncode, log(r)))

    def log(r):
        with open(r["log"], encoding="utf-8", errors="replace") as f:
            return f.read()[-1500:]

    def ended(r, force, how):
        """wait until a run that was told to stop has ended, and judge how"""
        try:
            wait("the stopped task %r does not end" % r["name"], lambda: gone(r["pid"]))
            rc = r["proc"].wait(PATIENCE)
        except subprocess.TimeoutExpired:
            raise Stuck("the wrapper of the stopped task %r does not end" % r["name"])
        if r["worker"]:
            wait("worker", lambda: gone(r["worker"]))
        ev = events(r)
        if not force:
            if rc != 0:
                raise Violation("the task %r, stopped with %s, ended with code %s: %s" % (r["name"], how, rc, log(r)))
            if sum(e["k"] == "begin" for e in ev) != sum(e["k"] == "end" for e in ev):
                raise Violation("the task %r was stopped with %s in the middle of a callback: %s" % (r["name"], how, ev[-3:]))
        elif rc == 0:
            raise Violation("the task %r, stopped with force, ended with code 0" % r["name"])

    def judge_events(r):
        ev, last = [e for e in events(r) if e["k"] == "begin"], None
        for e in ev:
            if e["now"] < e["due"]:
                raise Violation("the task %r ran at %s, before its due time %s" % (r["name"], e["now"], e["due"]))
        got = [e["due"] for e in ev]
        if got != r["dues"][:len(got)]:
            raise Violation("the task %r ran for the due times %s, expected are %s" % (r["name"], got, r["dues"][:len(got)]))
        open_ = 0
        for e in events(r):
            open_ += 1 if e["k"] == "begin" else -1
            if open_ not in (0, 1):
                raise Violation("callbacks of %r overlap: %s" % (r["name"], events(r)))

    def spawn(i):
        s, n = case["slots"][i], name(i)
        run = len(left)
        code = os.path.join(base, "s%d" % i, "strat.py")
        if not os.path.exists(code):
            os.makedirs(os.path.dirname(code))
            with open(code, "w", encoding="utf-8") as f:
                f.write(STRATEGY % (s["fork"], s["busy"]))
        args = {0: ["-n", n, "-c", code], 1: ["--code=" + code, "--name=" + n], 2: ["--name", n, "--code", code], 3: ["-c" + code, "-n" + n]}[s["form"]]
        o = s["out"] and "%d%s" % (run, s["out"])
        if o:
            args += ["-o", o]
        if s["debug"]:
            args.append("--debug")
        full = (["timeout", "--foreground", "600"] if s["wrap"] else []) + cmd(s["script"]) + ["start_task"] + args
        lf = os.path.join(base, "stdout_%d" % run)
        with open(lf, "wb") as f:
            p = subprocess.Popen(full, env=dict(env, E2E_RUN=str(run)), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        r = {"run": run, "name": n, "proc": p, "pid": None, "worker": 0, "log": lf, "code": code, "out": o, "debug": s["debug"], "t": time.monotonic()}
        left.append(r)
        return r

    def is_up(r):
        return os.path.exists(os.path.join(base, "ready_%d" % r["run"]))

    def start(i, at_once=1):
        s, n = case["slots"][i], name(i)
        new = [spawn(i) for _ in range(at_once)]
        for r in new:
            wait("start_task of %r neither runs nor ends" % n, lambda: is_up(r) or r["proc"].poll() is not None)
        up = [r for r in new if is_up(r)]
        if n in alive and up:
            raise Violation("a second task with the name %r was started" % n)
        if len(up) > 1:
            raise Violation("of %d tasks with the name %r that were started at the same moment, %d run" % (at_once, n, len(up)))
        for r in new:
            if r not in up and r["proc"].wait(PATIENCE) == 0:
                raise Violation("a refused start of %r ended with code 0: %s" % (n, log(r)))
        if n in alive:
            out["labels"].add("refused start")
            out["nt"] = True
            return
        if at_once > 1:
            out["labels"].add("%d of several started at once" % len(up))
            out["nt"] = True
        elif not up:
            raise Violation("start_task of %r failed with code %s although no task of the name is running (others: %s): %s" % (n, new[0]["proc"].returncode, sorted(alive), log(new[0])))
        for r in up:
            with open(os.path.join(base, "ready_%d" % r["run"])) as f:
                r.update(json.load(f))
            runs.append(r)
            wait("the strategy %r never gets ready for signals" % n, lambda: catches(r["pid"]) or r["proc"].poll() is not None)
            alive[n] = r
            out["labels"] |= {"wrapped"} if s["wrap"] else set()
            out["labels"] |= {"forks"} if s["fork"] else set()

    def listing():
        got = {}
        for g in parse_listing(tool("get_tasks")):
            if g.get("name", "").startswith(token):
                if g["name"] in got:
                    raise Violation("get_tasks shows %r twice: %s and %s" % (g["name"], got[g["name"]], g))
                got[g["name"]] = g
        want = {n: {"name": n, "pid": str(r["pid"]), "code": r["code"], "out": str(r["out"]), "debug": str(r["debug"]), "env": "None"} for n, r in alive.items()}
        if got != want:
            raise Violation("get_tasks shows %s, running are %s" % (got, want))
        out["labels"].add("listed %d" % len(want))

    def stop(i, how, force, during):
        n = name(i)
        r = alive.get(n)
        if how == "pid" and r is None and not runs:
            return
        if during and r:
            seen = len([e for e in events(r) if e["k"] == "begin"])
            if time.monotonic() - r["t"] < 30:
                wait("no callback of %r runs" % n, lambda: len([e for e in events(r) if e["k"] == "begin"]) > seen or gone(r["pid"]))
                out["labels"].add("stopped during a callback")
                out["nt"] = True
        check_alive("nothing stopped it")
        if how == "int":
            if r is None:
                return
            force = False
            os.kill(r["pid"], signal.SIGINT)
        else:
            pid = r["pid"] if r else runs[-1]["pid"] if runs and runs[-1]["name"] not in alive else 4194200
            tool("stop_task", *((["-n", n] if how == "name" else ["-p", str(pid)]) + ["-f"] * force))
        if r:
            del alive[n]
            ended(r, force, how)
            judge_events(r)
            out["labels"].add("stop by %s%s" % (how, ", force" if force else ""))
            out["nt"] |= bool(alive)
        check_alive("only %r was stopped by %s" % (n, how))

    try:
        for o in case["ops"]:
            if o[0] == "start":
                start(o[1])
            elif o[0] == "race":
                start(o[1], o[2])
            elif o[0] == "list":
                listing()
            else:
                stop(o[1], o[2], o[3], o[0] == "during")
        check_alive("nothing stopped it")
        listing()
        for n in list(alive):
            r = alive.pop(n)
            os.kill(r["pid"], signal.SIGTERM)
            ended(r, False, "SIGTERM")
            judge_events(r)
    except Violation as e:
        out["bad"] = str(e)
    except Stuck as e:
        out["bad"] = "%s within %d s" % (e, PATIENCE)
        out["stuck"] = True
    finally:
        for r in left:
            for pid in (r["pid"], r["proc"].pid):
                try:
                    if pid:
                        os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        out["labels"] = sorted(out["labels"])
    return out


def run(case, env):
    d = env.new_dir()
    os.chown(d, NOBODY, NOBODY)
    try:
        for attempt in (0, 1):
            res = sandbox.run_case(simulate, (case, "e" + os.urandom(5).hex()), d, wall=300)
            if res.status != "ok":
                raise Violation("the command %s\n%s" % (res.describe(), res.output[-1500:]))
            if not res.value.get("stuck"):
                break
            env.drop(d)          # a stuck machine is told from a stuck strategy by a second run
            d = env.new_dir()
            os.chown(d, NOBODY, NOBODY)
        if res.value["bad"]:
            raise Violation("%s\nafter %s with the tasks %s" % (res.value["bad"], case["ops"], case["slots"]))
        return Outcome(res.value["nt"], res.value["labels"], {"case": case})
    finally:
        env.drop(d)
