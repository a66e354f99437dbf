"""C21: the environment option sets exactly the variables given."""
import datetime
import os
import subprocess
import sys

from hypothesis import strategies as st

from harness import sandbox, sim
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C21"
LEVEL = "exploration"
RULE = ("A case is an environment option (names and values with blanks around the separators, '=' and other special characters in values, empty values, repeated and already set names, empty parts, PYTHONPATH with several entries, some of which do not "
        "exist or hold the same modules) given in a generated form; the real start_task is run with it and the environment is recorded while the strategy is being loaded, in process_initialize, in a scheduled callback and in a child process, and compared with a reference "
        "parse; modules on the path are imported. Non-trivial: at least two variables, or a path of at least two entries.")
ASSUMPTIONS = ["Parts have the form NAME=VALUE with a name that is not empty; values contain neither semicolons nor NUL; blanks around a value may or may not be kept."]
QUICK = 250
THOROUGH = 20000

names = mix(st.sampled_from(["VA", "VB", "VC", "HOME", "LANG", "PATH", "VA", "va", "USER", "V.x", "名", "V A", "VERBOSE", "JQ_MODE", "V-1"]), st.text("ABCxyz_09", min_size=1, max_size=5).map(lambda s: "V" + s))
values = mix(st.sampled_from(["1", "", "x=y", "=", "a=b=c", "./bin:/usr/bin", "C:\\x", "中文", "a b", "'q'", "\"q\"", "$HOME", "~", "--debug", "a,b", "%s{}", "#x", "1:2", "tab\tx", "é"]), st.text("ab=: $'\"%-./\\中", max_size=8))
blank = st.sampled_from(["", "", "", " ", "  "])
MODS = ["vm_a", "vm_b", "vm_c", "this"]
DIRS = ["p1", "p2", "p 3", "sub/p4", "./p5", "@/p6", "none", "@/none", "p1/", "p7=x", "路"]
path = st.lists(st.sampled_from(DIRS), min_size=1, max_size=4, unique=True)
part = mix(st.builds(lambda n, v, a, b, c, d: {"n": n, "v": v, "b": [a, b, c, d]}, names, values, blank, blank, blank, blank), st.just({"empty": ""}), st.just({"empty": " "}),
                 st.builds(lambda p: {"n": "PYTHONPATH", "path": p, "b": ["", "", "", ""]}, path), st.builds(lambda p: {"n": "PYTHONPATH", "path": p, "b": ["", "", "", ""]}, path))


@st.composite
def cases(draw, tier):
    return {"parts": draw(st.lists(part, min_size=1, max_size=6)), "form": draw(st.sampled_from(["-e", "--env", "--env=", "-e+", "--e="])), "mods": {d.rstrip("/"): draw(st.lists(st.sampled_from(MODS), max_size=3, unique=True)) for d in DIRS if "none" not in d and d != "p1/"},
            "preset": draw(st.booleans()), "out": draw(st.booleans()), "debug": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def simulate(case):
    cwd = os.getcwd()

    def put(p):
        return p.replace("@/", cwd + "/")
    if case["preset"]:
        os.environ["VA"] = "before"
        os.environ["PYTHONPATH"] = "/nowhere"
    for d, mods in case["mods"].items():
        d = put(d)
        os.makedirs(d, exist_ok=True)
        for m in mods:
            with open(os.path.join(d, m + ".py"), "w") as f:
                f.write("WHERE = %r\n" % d)
    text, want, paths = [], [], []
    for p in case["parts"]:
        if "empty" in p:
            text.append(p["empty"])
            continue
        v = put(":".join(p["path"])) if "path" in p else p["v"]
        b = p["b"]
        text.append(b[0] + p["n"] + b[1] + "=" + b[2] + v + b[3])
        want.append([p["n"], v, b[2] + v + b[3]])
        if "path" in p:
            paths = [put(x) for x in p["path"]]
        elif p["n"] == "PYTHONPATH":
            paths = p["v"].split(":")
    text = ";".join(text)
    form = case["form"]
    if text.startswith("-") and form in ("-e", "--env"):
        form = "--env="
    if form == "-e+" and (not text or text.startswith("=")):
        form = "--env="
    args = ["-n", "vtask", "-c", "vstrategy_case.py"] + ([form, text] if form in ("-e", "--env") else ["-e" + text] if form == "-e+" else [form + text]) + (["-o", "out.log"] if case["out"] else []) + ["--debug"] * case["debug"]
    before = dict(os.environ)

    def snap(where):
        now = dict(os.environ)
        sandbox.rec("env", where=where, changed={k: v for k, v in now.items() if before.get(k) != v}, gone=[k for k in before if k not in now])

    def load(g):
        import importlib
        snap("load")
        for m in MODS:
            sys.modules.pop(m, None)
            try:
                r = importlib.import_module(m).WHERE
            except ImportError:
                r = None
            except AttributeError:
                r = "stdlib"
            sandbox.rec("mod", m=m, where=r)
        out = subprocess.run([sys.executable, "-S", "-E", "-c", "import os,sys; sys.stdout.buffer.write(b'\\0'.join(k+b'='+v for k,v in os.environb.items()))"], stdout=subprocess.PIPE).stdout
        child = dict(x.split(b"=", 1) for x in out.split(b"\0") if b"=" in x)
        sandbox.rec("child", env={os.fsdecode(k): os.fsdecode(v) for k, v in child.items() if os.fsdecode(v) != before.get(os.fsdecode(k))})

    def initialize(g, ctx):
        snap("initialize")
        g["set_options"](use_account=False, runtime_dir="run")
        g["run_daily"](g["f0"], "10:00:03")

    def fire(i, g, ctx):
        snap("callback")

    def setup():
        sys.modules["vprobe"].load = load
    start = datetime.datetime(2024, 2, 28, 10, 0, 0, 500000)
    end = sim.start_task(start, start + datetime.timedelta(seconds=8), initialize, fire, nfuncs=1, body="\nvprobe.load(globals())\n", args=args, before=setup)
    return {"end": end, "want": want, "before": before, "paths": paths, "text": text, "cwd": cwd}


def judge(case, res):
    if res.status != "ok":
        raise Violation("the command %s\n%s" % (res.describe(), res.output[-1500:]))
    v = res.value
    desc = "environment option %r: " % v["text"]
    if v["end"]["end"] != "return":
        raise Violation(desc + "start_task ended with %s %s\n%s" % (v["end"]["exc"], v["end"]["msg"], v["end"]["tb"]))
    want = {}
    for n, plain, full in v["want"]:
        want[n] = {plain, plain.strip(), full, full.strip()}
    envs = [e for e in res.trace if e["k"] == "env"]
    if [e["where"] for e in envs] != ["load", "initialize", "callback"]:
        raise Violation(desc + "the strategy was not run\n%s" % res.output[-1000:])
    for e in envs + [dict(x, where="child process", changed=x["env"], gone=[]) for x in res.trace if x["k"] == "child"]:
        ch = e["changed"]
        if e["where"] == "child process":
            ch = {k: x for k, x in ch.items() if k not in ("PWD", "OLDPWD", "_", "SHLVL", "LC_CTYPE")}
        for n, ok in want.items():
            have = ch.get(n, v["before"].get(n))
            if have not in ok:
                raise Violation(desc + "%s is %r (%s), expected %s" % (n, have, e["where"], sorted(ok)))
        extra = set(ch) - set(want)
        if extra or e["gone"]:
            raise Violation(desc + "changes other variables (%s): %s %s" % (e["where"], {k: ch[k] for k in extra}, e["gone"]))
    paths = v["paths"]
    mods = {os.path.normpath(d.replace("@/", v["cwd"] + "/")): m for d, m in case["mods"].items()}
    for e in res.trace:
        if e["k"] == "mod":
            first = next((p for p in paths if e["m"] in mods.get(os.path.normpath(p), [])), None) if paths else None
            got = e["where"]
            if got is not None and got != "stdlib":
                got = os.path.normpath(got)
            exp = os.path.normpath(first) if first is not None else ("stdlib" if e["m"] == "this" else None)
            if got != exp:
                raise Violation(desc + "module %s was imported from %s, expected %s (path %s, modules %s)" % (e["m"], got, exp, paths, mods))
    return Outcome(len(want) > 1 or len(paths) > 1, ["path of several entries"] * (len(paths) > 1) + ["several variables"] * (len(want) > 1) + ["repeated"] * (len(v["want"]) > len(want)), {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
