"""C30: start_task runs exactly the strategy file it was given, with the modules beside it."""
import datetime
import importlib
import os
import sys
import types

from hypothesis import strategies as st

from harness import sandbox, sim
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C30"
LEVEL = "exploration"
RULE = ("A case is a strategy file with a generated name (dots, blanks, other characters, names of modules that are already loaded) in a generated directory, given in a generated form, with decoy files of the same or a shortened name beside it, in the working "
        "directory and on PYTHONPATH, modules of the same names in these places, and imports made while loading, in process_initialize and in callbacks, also after a change of directory. Recorded are which files were loaded and whose functions ran. "
        "In other cases the file cannot be loaded: the start must fail with that error and nothing may run. Non-trivial: a decoy or an already loaded module of that name existed, or a module lay in two places, or the loading failed.")
ASSUMPTIONS = ["The file has the suffix .py.", "A name that the process itself imports only later (as a standard module) is not used for the strategy."]
QUICK = 200
THOROUGH = 10000

STEMS = ["demo", "my_strategy", "demo_v1.2", "demo.v2", "a.b.c", "策略", "策略.1", "my strategy", "my-strategy", "2024", "3.1", "json", "signal", "datetime", "logging", "os", "collections", "psutil", "pyuv", "vloaded", "vloaded.x", "_", "class",
         "vm_a.b", "start_task", "py", "demo.py", "__init__", ".hidden", "v1.", "d..x"]
stems = mix(st.sampled_from(STEMS), st.builds(lambda a, b: a + "." + b, st.sampled_from(["demo", "v", "vm_b", "os"]), st.text("ab1._-", min_size=1, max_size=4)))
DIRS = ["", "strategies", "s 1/策略", "v1.2/live.d", "x/../strategies", "@/strategies", "@", "./strategies/", "demo"]
MODS = ["vm_a", "vm_b", "vm_c", "vpkg"]
mods = st.fixed_dictionaries({p: st.lists(st.sampled_from(MODS), max_size=3, unique=True) for p in ("own", "cwd", "pp")})


@st.composite
def cases(draw, tier):
    return {"stem": draw(stems), "dir": draw(st.sampled_from(DIRS)), "decoys": draw(st.lists(st.sampled_from(["own-short", "cwd", "pp", "cwd-short", "pp-short", "pkg", "upper"]), max_size=4, unique=True)),
            "mods": draw(mods), "at": draw(st.lists(st.tuples(st.sampled_from(["load", "initialize", "callback"]), st.sampled_from(MODS)), max_size=5)),
            "chdir": draw(st.sampled_from([None, None, "load", "initialize", "callback"])), "back": draw(st.booleans()),
            "fault": draw(st.sampled_from([None] * 6 + ["syntax", "raise", "exit", "import", "name"])), "pp": draw(st.booleans()), "bytecode": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


FAULTS = {"syntax": "def x(:\n", "raise": "raise KeyError('broken strategy')\n", "exit": "raise SystemExit(0)\n", "import": "import vnot_there\n", "name": "vundefined\n"}
ERRORS = {"syntax": "SyntaxError", "raise": "KeyError", "exit": "SystemExit", "import": "ModuleNotFoundError", "name": "NameError"}
DECOY = "import vprobe\nvprobe.decoy(%r)\ndef process_initialize(context):\n    vprobe.decoy(%r)\n"
MOD = "import vprobe\nvprobe.module(%r, %r)\nWHERE = %r\n"


def simulate(case):
    cwd = os.getcwd()
    stem, fname = case["stem"], case["stem"] + ".py"
    d = case["dir"].replace("@", cwd)
    real = os.path.normpath(os.path.join(cwd, d))
    for p in (real, os.path.join(cwd, "pp"), os.path.join(cwd, "away"), os.path.join(cwd, "x")):
        os.makedirs(p, exist_ok=True)
    code = os.path.join(d, fname)
    places = {"own": real, "cwd": cwd, "pp": os.path.join(cwd, "pp")}

    def decoy(path):
        if not os.path.exists(path) and os.path.normpath(path) != os.path.join(real, fname):
            with open(path, "w") as f:
                f.write(DECOY % (path, path))
            return True
        return False
    short = stem.split(".")[0]
    n_decoys = 0
    for x in case["decoys"]:
        where = {"own-short": real, "cwd": cwd, "cwd-short": cwd, "pp": places["pp"], "pp-short": places["pp"], "upper": os.path.dirname(real) if real != cwd else cwd}.get(x)
        if x == "pkg":       # a package of that name beside the file
            p = os.path.join(real, short)
            if short and short not in MODS and not os.path.exists(p):
                os.makedirs(p)
                n_decoys += decoy(os.path.join(p, "__init__.py"))
            continue
        n = short if x.endswith("short") else stem
        if n and n not in MODS:
            n_decoys += decoy(os.path.join(where, n + ".py"))
    taken = set()
    for p, names in case["mods"].items():
        for m in names:
            path = os.path.join(places[p], m + ".py")
            if m == stem or os.path.exists(path):
                continue
            if m == "vpkg":
                os.makedirs(os.path.join(places[p], m), exist_ok=True)
                path = os.path.join(places[p], m, "__init__.py")
                if os.path.exists(path):
                    continue
            with open(path, "w") as f:
                f.write(MOD % (m, places[p], places[p]))
            taken.add((m, places[p]))
    loaded = types.ModuleType("vloaded")
    loaded.process_initialize = lambda ctx: sandbox.rec("decoy", path="vloaded in memory")
    sys.modules["vloaded"] = loaded
    # as with python -m, the working directory is on the path
    sys.path.insert(0, cwd)
    sys.dont_write_bytecode = not case["bytecode"]
    preloaded = stem in sys.modules

    def imports(where):
        for w, m in case["at"]:
            if w == where:
                try:
                    r = importlib.import_module(m).WHERE
                except ImportError as e:
                    r = None
                sandbox.rec("mod", m=m, where=r, at=where)

    def move(where):
        if case["chdir"] == where:
            os.chdir(os.path.join(cwd, "away"))

    def load(g):
        sandbox.rec("load", file=os.path.normpath(os.path.abspath(g["__file__"])), token=id(g))
        imports("load")
        move("load")

    def initialize(g, ctx):
        sandbox.rec("initialize", token=id(g))
        move("initialize")
        imports("initialize")
        g["set_options"](use_account=False, runtime_dir=os.path.join(cwd, "run"))
        g["run_daily"](g["f0"], "10:00:03")
        g["run_daily"](g["f1"], "10:00:05")

    def fire(i, g, ctx):
        sandbox.rec("fire", i=i, token=id(g))
        move("callback")
        imports("callback")
        if case["back"] and not preloaded and stem.isidentifier():
            m = importlib.import_module(stem)
            sandbox.rec("back", token=id(vars(m)))

    def setup():
        pr = sys.modules["vprobe"]
        pr.load = load
        pr.decoy = lambda p: sandbox.rec("decoy", path=p)
        pr.module = lambda m, p: sandbox.rec("module", m=m, where=p)
    args = ["-n", "vtask", "-c", code] + (["-e", "PYTHONPATH=" + places["pp"]] if case["pp"] else [])
    start = datetime.datetime(2024, 2, 28, 10, 0, 0, 500000)
    body = "\nvprobe.load(globals())\n" + FAULTS.get(case["fault"], "")
    end = sim.start_task(start, start + datetime.timedelta(seconds=8), initialize, fire, nfuncs=2, body=body, args=args, before=setup, code=code)
    return {"end": end, "file": os.path.join(real, fname), "places": places, "mods": sorted(taken), "decoys": n_decoys, "preloaded": preloaded, "code": code}


def judge(case, res):
    if res.status != "ok":
        raise Violation("the command %s\n%s" % (res.describe(), res.output[-1500:]))
    v = res.value
    desc = "strategy %r (decoys %s): " % (v["code"], case["decoys"])
    t = res.trace
    for e in t:
        if e["k"] == "decoy":
            raise Violation(desc + "ran %s instead" % e["path"])
    loads = [e for e in t if e["k"] == "load"]
    runs = [e for e in t if e["k"] in ("initialize", "fire")]
    if case["fault"]:
        if v["end"]["exc"] != ERRORS[case["fault"]]:
            raise Violation(desc + "which cannot be loaded (%s): start_task ended with %s %s %s" % (case["fault"], v["end"]["end"], v["end"]["exc"], v["end"]["msg"]))
        if runs:
            raise Violation(desc + "which cannot be loaded (%s) ran %s" % (case["fault"], runs))
    else:
        if v["end"]["end"] != "return":
            raise Violation(desc + "start_task ended with %s %s\n%s" % (v["end"]["exc"], v["end"]["msg"], v["end"]["tb"]))
        if [e.get("i", "init") for e in runs] != ["init", 0, 1]:
            raise Violation(desc + "ran %s" % runs)
    if case["fault"] != "syntax":
        if [e["file"] for e in loads] != [os.path.normpath(v["file"])]:
            raise Violation(desc + "loaded %s" % [e["file"] for e in loads])
        if any(e["token"] != loads[0]["token"] for e in runs + [e for e in t if e["k"] == "back"]):
            raise Violation(desc + "functions run in several copies of it")
    order = [v["places"]["own"]] + [v["places"]["pp"]] * case["pp"] + [v["places"]["cwd"]]
    have = {tuple(x) for x in v["mods"]}
    for e in t:
        if e["k"] == "mod":
            exp = next((p for p in order if (e["m"], p) in have), None)
            if e["where"] != exp:
                raise Violation(desc + "module %s was imported from %s (%s), expected %s of %s" % (e["m"], e["where"], e["at"], exp, sorted(have)))
    seen = [e["m"] for e in t if e["k"] == "module"]
    if len(seen) != len(set(seen)):
        raise Violation(desc + "modules were loaded twice: %s" % seen)
    twice = any(sum(m == x[0] for x in have) > 1 for m in MODS)
    return Outcome(bool(v["decoys"] or v["preloaded"] or twice or case["fault"]), ["decoys"] * bool(v["decoys"]) + ["already loaded"] * v["preloaded"] + ["dots"] * ("." in case["stem"]) + ["fault"] * bool(case["fault"]) + ["imports back"] * any(e["k"] == "back" for e in t),
                   {"case": case})


def run(case, env):
    d = env.new_dir()
    try:
        return judge(case, sandbox.run_case(simulate, (case,), d))
    finally:
        env.drop(d)
