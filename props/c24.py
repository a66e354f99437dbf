"""C24: everything a strategy prints or logs arrives in order in the log file (or on standard output)."""
import datetime
import io
import os
import re
import sys

from hypothesis import strategies as st

from harness import sandbox, sim, vt
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C24"
LEVEL = "exploration"
RULE = ("A case is a sequence of print calls (any arguments, sep, end, flush, file) and log calls (any level, lazy arguments, exceptions) spread over process_initialize and scheduled callbacks, with changes of the working directory between them, run with and without a log file "
        "(relative or absolute, fresh or with contents, from the command line in several forms) and debug mode, ending with a stop signal or by sudden death of the process. The log file, standard output and error, and the files given to print are captured separately; each must consist of exactly "
        "the expected texts in order, with nothing but the framework's own log records between them, every log record headed by its level and the wall-clock time of the call (compared with the virtual clock), and every call's marker may appear exactly as often as it was written. Non-trivial: at least three calls, print and log among them.")
ASSUMPTIONS = ["Characters the locale's encoding can represent.", "What a strategy prints while it is being loaded is not redirected.", "Texts a call with flush=False, or without flush to a file of its own, has left in a buffer may be lost when the process dies suddenly.",
               "Calls from several threads, and prints made while the arguments of another print are converted, are left open."]
QUICK = 200
THOROUGH = 4000

texts = mix(st.sampled_from(["", "a", "x y", "策略 启动", "line1\nline2", "\ttab", "%s %d %%", "{x}", "\x00", "é€😀", "a\r\nb", "[2024-01-01 00:00:00] x", "\u2028", "\\n", "a" * 9000, "中" * 5000]),
                  st.text(st.characters(blacklist_categories=["Cs"]), max_size=12))
values = mix(texts.map(lambda t: ["s", t]), st.integers(-10 ** 6, 10 ** 20).map(lambda i: ["i", i]), st.floats(allow_nan=True).map(lambda f: ["f", repr(f)]), st.just(["none"]), texts.map(lambda t: ["list", t]), texts.map(lambda t: ["obj", t]))
LEVELS = ["debug", "info", "info", "warning", "error", "critical", "exception", "log", "warn"]


@st.composite
def prints(draw):
    o = {"op": "print", "args": draw(st.lists(values, max_size=4)), "at": draw(st.integers(0, 4))}
    if draw(st.integers(0, 2)) == 0:
        o["sep"] = draw(mix(st.none(), texts))
    if draw(st.integers(0, 2)) == 0:
        o["end"] = draw(mix(st.none(), texts))
    if draw(st.integers(0, 3)) == 0:
        o["flush"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o["file"] = draw(st.sampled_from(["None", "user", "user", "stringio", "stdout", "stderr", "writeonly", "stdout"]))
        if o["file"] == "writeonly":
            o.pop("flush", None)
    return o


@st.composite
def logs(draw):
    o = {"op": "log", "level": draw(st.sampled_from(LEVELS)), "text": draw(texts), "args": draw(st.lists(texts, max_size=2)), "lazy": draw(st.sampled_from(["none", "s", "r"]))}
    if o["level"] == "log":
        o["num"] = draw(st.sampled_from([5, 10, 15, 20, 25, 30, 50]))
    return o


ops = mix(prints(), prints(), logs(), logs(), st.sampled_from([{"op": "chdir", "to": "other"}, {"op": "chdir", "to": "."}, {"op": "redirect"}, {"op": "pause", "s": 0.25}, {"op": "pause", "s": 61}]))


@st.composite
def cases(draw, tier):
    return {"steps": draw(st.lists(st.lists(ops, max_size=6), min_size=1, max_size=4)), "out": draw(st.sampled_from([None, "out.log", "out.log", "./logs/o ut.log", "@/abs.log", "日志.txt"])), "form": draw(st.sampled_from(["-o", "--out", "--out="])),
            "old": draw(st.sampled_from([None, None, "old text\n", "no newline"])), "debug": draw(st.booleans()), "end": draw(st.sampled_from(["term", "term", "die"])), "account": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return cases(tier)


def marker(k):
    return "M%dZ" % k


class Obj(object):
    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t

    __repr__ = None


def value(v):
    if v[0] == "s" or v[0] == "i":
        return v[1]
    if v[0] == "f":
        return float(v[1])
    if v[0] == "none":
        return None
    if v[0] == "list":
        return [v[1], 1]
    return Obj(v[1])


def marked(o, k):
    """the arguments of print call k, with its marker put in"""
    a = [value(v) for v in o["args"]]
    a.insert(o["at"] % (len(a) + 1), marker(k))
    return a


def print_text(o, k):
    sep, end = o.get("sep"), o.get("end")
    sep, end = " " if sep is None else sep, "\n" if end is None else end
    return sep.join(str(x) for x in marked(o, k)) + end


LEVEL_NAME = {"warn": "WARNING", "exception": "ERROR"}
LEVEL_NUM = {"debug": 10, "info": 20, "warning": 30, "warn": 30, "error": 40, "critical": 50, "exception": 40}


def log_parts(o, k):
    text = o["text"]
    if o["lazy"] == "none" or not o["args"]:
        return text + marker(k), (), text + marker(k)
    spec = {"s": "%s", "r": "%r"}[o["lazy"]]
    fmt = text.replace("%", "%%") + marker(k) + "|".join(spec for _ in o["args"])
    return fmt, tuple(o["args"]), text + marker(k) + "|".join(spec % (a,) for a in o["args"])


def simulate(case):
    cwd = os.getcwd()
    for d in ("other", "logs"):
        os.makedirs(d, exist_ok=True)
    out = case["out"].replace("@", cwd) if case["out"] else None
    real_out = os.path.abspath(out) if out else None
    if out and case["old"]:
        with open(out, "w", newline="") as f:
            f.write(case["old"])
    # standard output as it is when it goes to a file: fully buffered
    fd1 = os.open("stdout.txt", os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
    fd2 = os.open("stderr.txt", os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
    os.dup2(fd1, 1)
    os.dup2(fd2, 2)
    sys.stdout = open(1, "w", buffering=1 << 16, encoding="utf-8", newline="\n", closefd=False)
    sys.stderr = open(2, "w", buffering=1, encoding="utf-8", newline="\n", closefd=False)
    sinks = {}
    counter = [0]
    start = datetime.datetime(2024, 3, 5, 10, 0, 0, 500000)

    class WriteOnly(object):
        def __init__(self):
            self.parts = []

        def write(self, s):
            self.parts.append(s)

    def sink(name):
        if name not in sinks:
            sinks[name] = {"user": lambda: open(os.path.join(cwd, "user.txt"), "w", encoding="utf-8", newline="\n"), "stringio": lambda: io.StringIO(newline="\n"), "writeonly": WriteOnly}[name]()
        return sinks[name]

    def do(o, g, ctx, step):
        k = counter[0]
        counter[0] += 1
        if o["op"] == "pause":
            vt.advance(o["s"] if step else 0.01)
        elif o["op"] == "chdir":
            os.chdir(os.path.join(cwd, o["to"]))
        elif o["op"] == "redirect":
            if not out:
                import contextlib
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    g["print"]("R" + marker(k))
                sandbox.rec("redirected", n=k, text=buf.getvalue())
        elif o["op"] == "print":
            kw = {x: o[x] for x in ("sep", "end", "flush") if x in o}
            if "file" in o:
                kw["file"] = {"None": lambda: None, "stdout": lambda: sys.stdout, "stderr": lambda: sys.stderr}.get(o["file"], lambda: sink(o["file"]))()
            r = g["print"](*marked(o, k), **kw)
            sandbox.rec("printed", none=r is None)
        else:
            fmt, args, _ = log_parts(o, k)
            log = g["log"]
            t = vt.now_ns()
            if o["level"] == "log":
                log.log(o["num"], fmt, *args)
            elif o["level"] == "exception":
                try:
                    raise ValueError("boom" + marker(k))
                except ValueError:
                    log.exception(fmt, *args)
            elif o["level"] == "warn":
                getattr(log, "warn", log.warning)(fmt, *args)
            else:
                getattr(log, o["level"])(fmt, *args)
            sandbox.rec("logged", n=k, a=t, b=vt.now_ns())

    first = start.replace(microsecond=0) + datetime.timedelta(seconds=1)
    steps = case["steps"]
    n = [0]

    def play(i, g, ctx):
        for o in steps[i]:
            do(o, g, ctx, i)
        if i == len(steps) - 1:
            for name, s in sinks.items():
                if name == "stringio":
                    sandbox.rec("sink", name=name, text=s.getvalue())
                elif name == "writeonly":
                    sandbox.rec("sink", name=name, text="".join(s.parts))
            sandbox.rec("done")
            if case["end"] == "die":
                os._exit(72)

    def before():
        if case["account"]:
            from harness import gate
            gate.install()

    def initialize(g, ctx):
        g["set_options"](**({"use_account": True, "account_no": "1", "runtime_dir": os.path.join(cwd, "run")} if case["account"] else {"use_account": False, "runtime_dir": os.path.join(cwd, "run")}))
        for i in range(len(steps) - 1):
            g["run_daily"](g["f0"], (first + datetime.timedelta(seconds=10 * i)).strftime("%H:%M:%S"))
        play(0, g, ctx)

    def fire(i, g, ctx):
        n[0] += 1
        if n[0] < len(steps):
            play(n[0], g, ctx)

    args = ["-n", "vtask", "-c", "vstrategy_case.py"]
    if out:
        args += [case["form"] + out] if case["form"].endswith("=") else [case["form"], out]
    if case["debug"]:
        args.append("--debug")
    end = sim.start_task(start, start + datetime.timedelta(seconds=10 * len(steps) + 5 + sum(o["s"] for st_ in steps for o in st_ if o["op"] == "pause")), initialize, fire, nfuncs=1, args=args, before=before)
    sys.stdout.flush()
    sys.stderr.flush()
    for name, s in sinks.items():
        if name == "user":
            s.close()
    return end


# one record of the framework itself: a line that starts with a bracket and names no marker
OWN = r"(?:\[[^\n]*\n)*?"


def check_heads(where, m, items, when, desc):
    """every record is headed by its level and the wall-clock time of the call"""
    for kind, t, k in items:
        if kind == "print":
            continue
        head, (a, b, level) = m.group("h%d" % k), when[k]
        ts = re.search(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)[.,](\d{3,6})", head)
        if not ts:
            raise Violation(desc + "%s: the record of log call %d has no time: %r" % (where, k, head))
        got = vt.to_ns(datetime.datetime.strptime(ts.group(1), "%Y-%m-%d %H:%M:%S")) + int(ts.group(2).ljust(9, "0"))
        if not a - 2 * 10 ** 6 <= got <= b + 2 * 10 ** 6:
            raise Violation(desc + "%s: the record of log call %d says %s, but it was made at %s" % (where, k, ts.group(0), vt.from_ns(a)))
        if not re.search(r"(?<![A-Za-z0-9])%s(?![A-Za-z0-9])" % level, head):
            raise Violation(desc + "%s: the record of log call %d does not show its level %s: %r" % (where, k, level, head))


def check_stream(where, text, items, desc, lead=None, when=None):
    """items: [(kind, text, k)] expected in this order"""
    pos = 0
    if lead:
        if not text.startswith(lead):
            raise Violation(desc + "%s lost what it held before: %r" % (where, text[:100]))
        pos = len(lead)
    body = text[pos:]
    pat = [OWN]
    for kind, t, k in items:
        if kind == "print":
            pat.append(re.escape(t))
        elif kind == "log":
            pat.append(r"(?P<h%d>[^\n]*?)" % k + re.escape(t) + r"\n")
        else:
            pat.append(r"(?P<h%d>[^\n]*?)" % k + re.escape(t) + r"\nTraceback \(most recent call last\):\n(?:[^\n]*\n)*?ValueError: boom" + marker(k) + r"\n")
        pat.append(OWN)
    # marker counts first: they say what is wrong
    want = {}
    for kind, t, k in items:
        for m in re.findall(r"M\d+Z", t) + ([marker(k)] * 1 if kind == "exception" else []):
            want[m] = want.get(m, 0) + 1
    have = {}
    for m in re.findall(r"M\d+Z", re.sub(r'(?m)^    .*$', "", body)):
        have[m] = have.get(m, 0) + 1
    if want != have:
        lost = {m: n for m, n in want.items() if have.get(m, 0) < n}
        extra = {m: n for m, n in have.items() if want.get(m, 0) < n}
        raise Violation(desc + "%s: missing %s, unexpected %s; it holds %r" % (where, {m: [x[1][:60] for x in items if marker(x[2]) == m][:1] for m in lost}, extra, body[-600:]))
    m = re.fullmatch("".join(pat), body)
    if not m:
        raise Violation(desc + "%s does not consist of the expected texts in order: expected %r, it holds %r" % (where, [x[1][:80] for x in items], re.sub(r"(?m)^\[[^\n]*\[system[^\n]*\n", "", body)[-1200:]))
    if when:
        check_heads(where, m, items, when, desc)


def judge(case, res, d):
    die = case["end"] == "die"
    if not (res.status == "ok" or (die and res.status == "exit" and res.code == 72)):
        raise Violation("the strategy process %s\n%s" % (res.describe(), res.output[-1500:]))
    desc = "log file %s%s%s: " % (case["out"], ", debug" if case["debug"] else "", ", sudden death" if die else "")
    if not any(e["k"] == "done" for e in res.trace):
        raise Violation(desc + "a print or log call failed: %s" % (res.value and (res.value["exc"], res.value["msg"], (res.value["tb"] or "")[-1500:]),))
    if not die and res.value["end"] != "return":
        raise Violation(desc + "start_task ended with %s %s" % (res.value["exc"], res.value["msg"]))

    def read(p):
        try:
            with open(os.path.join(d, p), encoding="utf-8", newline="") as f:
                return f.read()
        except FileNotFoundError:
            return ""
    when = {}
    streams = {"log": [], "stdout": [], "stderr": [], "user": [], "stringio": [], "writeonly": []}
    main = "log" if case["out"] else "stdout"
    k = -1
    chd = False
    kinds = set()
    unflushed = noerr = False
    for step in case["steps"]:
        for o in step:
            k += 1
            if o["op"] == "print":
                f = o.get("file", "None")
                streams[main if f == "None" else f].append(("print", print_text(o, k), k))
                kinds.add("print")
                if die and o.get("flush") is False and (f == "stdout" or main == "stdout" and f == "None"):
                    unflushed = True
                if die and f == "stdout":
                    unflushed = True
                noerr |= die and f == "stderr"
            elif o["op"] == "log":
                lev = o.get("num") or LEVEL_NUM[o["level"]]
                if lev >= (10 if case["debug"] else 20):
                    when[k] = (0, 0, LEVEL_NAME.get(o["level"], o["level"].upper()) if o["level"] != "log" else {10: "DEBUG", 20: "INFO", 30: "WARNING", 50: "CRITICAL"}.get(lev, "Level %d" % lev))
                    streams[main].append(("exception" if o["level"] == "exception" else "log", log_parts(o, k)[2], k))
                kinds.add("log")
            elif o["op"] == "chdir" and o["to"] != ".":
                chd = True
    for e in res.trace:
        if e["k"] == "logged" and e["n"] in when:
            when[e["n"]] = (e["a"], e["b"], when[e["n"]][2])
        if e["k"] == "printed" and not e["none"]:
            raise Violation(desc + "print returned something")
        if e["k"] == "redirected" and e["text"] != "R%s\n" % marker(e["n"]):
            raise Violation(desc + "print without a log file did not go to the redirected standard output")
    if case["out"]:
        check_stream("the log file", read(case["out"].replace("@/", "")), streams["log"], desc, lead=case["old"], when=when)
    if not (unflushed and die):
        check_stream("standard output", read("stdout.txt"), streams["stdout"], desc, when=when)
    if not noerr:
        check_stream("standard error", read("stderr.txt"), streams["stderr"], desc)
    if not die:
        check_stream("the file given to print", read("user.txt"), streams["user"], desc)
    for e in res.trace:
        if e["k"] == "sink":
            check_stream("the %s object given to print" % e["name"], e["text"], streams[e["name"]], desc)
    n = sum(len(v) for v in streams.values())
    return Outcome(n >= 3 and len(kinds) == 2, ["log file" if case["out"] else "stdout"] + ["chdir"] * chd + ["death"] * die + ["debug"] * case["debug"] + ["file=" + o["file"] for s in case["steps"] for o in s if "file" in o], {"case": case, "texts": n})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d), d)
    finally:
        env.drop(d)
