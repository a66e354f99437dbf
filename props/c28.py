"""C28: order ids are unique."""
import json
import os
import random

from hypothesis import strategies as st

from harness import gate, sandbox, sim
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C28"
LEVEL = "exploration"
RULE = ("A case is a set of strategy processes that start from the same parent at the same or other virtual instants with the same or other random seeds (set by the strategy), place generated numbers of orders, fork children that go on ordering, and "
        "are restarted; all ids returned must differ, and each process must still list as many orders as it placed. Non-trivial: at least two processes placed orders.")
ASSUMPTIONS = ["Ids are 32-bit random numbers: of N ids collected in one case from several processes, a few may collide by chance (N up to 5000: 2, 25000: 5, 100000: 12, 200000: 22, 600000: 90; the chance of more is below one in a thousand million)."]
QUICK = 14
THOROUGH = 400

START = "2024-02-28T10:00:00.500000"
proc = st.fixed_dictionaries({"n": mix(st.integers(1, 60), st.integers(100, 1500)), "offset": st.sampled_from([0, 0, 0, 1, 86400]), "seed": st.sampled_from([1, 1, 1, 2, None]), "forks": st.integers(0, 2),
                              "account": st.sampled_from(["1", "1", "2"]), "name": st.sampled_from(["a", "a", "b"]), "tick": st.sampled_from([0, 0, 1000])})


def strategy(tier):
    return st.fixed_dictionaries({"procs": st.lists(proc, min_size=1, max_size=5)})


def explicit_cases(tier):
    one = {"offset": 0, "seed": 1, "forks": 0, "account": "1", "name": "a", "tick": 0}
    big = [dict(one, n=10000)] * 2
    out = [{"procs": big}, {"procs": [dict(one, n=1000)] * 4}, {"procs": [dict(one, n=400, forks=2)] * 3}, {"procs": [dict(one, n=25000)]}, {"procs": [dict(one, n=25000)] * 8}, {"procs": [dict(one, n=12000), dict(one, n=12000, seed=None, tick=1000)]}]
    if tier == "thorough":
        out += [{"procs": [dict(one, n=50000, tick=i)] * 12} for i in range(8)]
    return out


def allowed(n):
    return 2 if n <= 5000 else 5 if n <= 25000 else 12 if n <= 100000 else 22 if n <= 200000 else 90


def simulate(case, k):
    p = case["procs"][k]
    start = sim.un(START) + __import__("datetime").timedelta(seconds=p["offset"])
    due = start + __import__("datetime").timedelta(seconds=1)
    ids, errors = [], []

    def quiet(n):
        import logging
        logging.getLogger().setLevel("CRITICAL")
        return n

    def place(g, n):
        out = []
        for i in range(n):
            out.append(g["order"]("000001.XSHE", 100))
        return out

    def initialize(g, ctx):
        g["set_options"](account_no=p["account"], sync_balance=False, sync_order=False, runtime_dir="run")
        if p["seed"] is not None:
            random.seed(p["seed"])
            __import__("numpy").random.seed(p["seed"])
        g["run_daily"](g["f0"], due.strftime("%H:%M:%S"))

    def fire(i, g, ctx):
        quiet(0)
        ids.extend(place(g, p["n"] // 2))
        pipes = []
        for f in range(p["forks"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    data = json.dumps(place(g, p["n"] // 2 + 1)).encode()
                    while data:
                        data = data[os.write(w, data):]
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            buf = b""
            while True:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
            os.close(r)
            os.waitpid(pid, 0)
            pipes.append(buf)
        ids.extend(place(g, p["n"] - p["n"] // 2))
        sandbox.rec("known", n=len(g["get_orders"]()))
        for buf in pipes:
            ids.extend(json.loads(buf))

    end = sim.start_task(start, due + __import__("datetime").timedelta(seconds=600), initialize, fire, nfuncs=1, before=gate.install, name=p["name"], tick_ns=p["tick"])
    return end, ids


def judge(case, results):
    everything = []
    for p, res in zip(case["procs"], results):
        if res.status != "ok" or res.value[0]["end"] != "return":
            raise Violation("the strategy process %s, end %s\n%s" % (res.describe(), res.value and res.value[0], res.output[-1500:]))
        ids = res.value[1]
        want = p["n"] + p["forks"] * (p["n"] // 2 + 1)
        if len(ids) != want or not all(isinstance(x, str) and x for x in ids):
            raise Violation("%d orders were placed, ids %s ..." % (want, ids[:3]))
        known = [e["n"] for e in res.trace if e["k"] == "known"]
        if len(known) != 1 or known[0] != p["n"] or len(set(ids[:p["n"]])) != p["n"]:
            raise Violation("of %d orders placed by one process %s are known: orders took each other's place" % (p["n"], known))
        everything += ids
    n = len(everything)
    dup = n - len(set(everything))
    if dup > allowed(n):
        seen, ex = set(), []
        for x in everything:
            if x in seen:
                ex.append(x)
            seen.add(x)
        raise Violation("%d of %d order ids placed by %d processes are not unique (chance explains %d at most): %s" % (dup, n, len(results), allowed(n), ex[:5]))
    many = len(results) > 1 or any(p["forks"] for p in case["procs"])
    return Outcome(many, ["several processes"] * (len(results) > 1) + ["forked"] * any(p["forks"] for p in case["procs"]) + ["chance collision"] * bool(dup), {"case": case, "ids": n}, n=n)


def run(case, env):
    results = []
    for k in range(len(case["procs"])):
        d = env.new_dir()
        try:
            results.append(sandbox.run_case(simulate, (case, k), d, cpu=120, wall=300))
        finally:
            env.drop(d)
    return judge(case, results)
