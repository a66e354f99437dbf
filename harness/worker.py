"""One worker process of a check: runs Hypothesis over the property's cases, writes a result file."""
import argparse
import json
import os
import sys
import time
import traceback

from .core import HYPO, REPO, Inconclusive, Violation, canonical, digest, load_prop


def setup_paths():
    sys.path.insert(0, REPO)
    sys.path.append(HYPO)          # last: jqtrade's own dependencies come from /opt/venv


def prop_info(mod):
    return {"level": mod.LEVEL, "rule": mod.RULE, "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}


def replay(mod, path, env):
    with open(path) as f:
        case = json.load(f)
    if isinstance(case, dict) and "case" in case and "message" in case:
        case = case["case"]
    try:
        mod.run(case, env)
    except Violation as e:
        print(str(e))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("replay: the property holds for this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1)
    a = ap.parse_args()
    setup_paths()
    os.environ["HOME"] = os.path.join(a.scratch, "home%d" % a.index)       # each worker its own, before anything is imported
    os.makedirs(os.environ["HOME"], exist_ok=True)
    mod = load_prop(a.pid)
    from . import sandbox
    env = sandbox.Env(a.scratch, a.index)
    sandbox.warm(getattr(mod, "WARM", ()))
    if a.replay:
        sys.exit(replay(mod, a.replay, env))

    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    cases = mod.QUICK if a.tier == "quick" else mod.THOROUGH
    cases = max(1, int(cases * a.scale))
    soft = 300 if a.tier == "quick" else 3 * 3600
    shrink_s = 60 if a.tier == "quick" else 180
    stop_file = os.path.join(a.scratch, "stop")
    t0 = time.monotonic()
    st = {"evaluations": 0, "inconclusive": 0, "nontrivial": set(), "labels": {}, "samples": [], "best": None,
          "first_fail": None, "seen": set(), "error": None}

    def one(case):
        now = time.monotonic()
        if st["first_fail"] is None:
            if now - t0 > soft or (st["evaluations"] % 4 == 0 and os.path.exists(stop_file)):
                st["labels"]["(cut short)"] = st["labels"].get("(cut short)", 0) + 1
                return
        elif now - st["first_fail"] > shrink_s:
            return
        try:
            out = mod.run(case, env)
        except Inconclusive:
            st["inconclusive"] += 1
            return
        except Violation as e:
            if st["first_fail"] is None:
                st["first_fail"] = time.monotonic()
                open(stop_file, "w").close()
            st["evaluations"] += 1
            if st["best"] is None or len(canonical(case)) <= len(canonical(st["best"]["case"])):
                st["best"] = {"property": mod.ID, "case": case, "message": str(e), "key": getattr(e, "key", None), "zone": os.environ["TZ"]}
            raise
        if st["first_fail"] is not None:
            return
        st["evaluations"] += out.n
        for lab in out.labels:
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if out.nontrivial:
            k = digest(case)
            if k not in st["nontrivial"]:
                st["nontrivial"].add(k)
                if len(st["samples"]) < 2 or (len(st["nontrivial"]) in (20, 100)):
                    st["samples"].append(out.sample if out.sample is not None else case)

    def search(strategy, n, seed):
        test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                        verbosity=Verbosity.quiet, phases=[Phase.generate, Phase.shrink])(given(strategy)(one))
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except Violation:
            pass
        except BaseException as e:
            if st["best"] is None:
                st["error"] = "worker %d: %s" % (a.index, "".join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-3000:])

    explicit = list(getattr(mod, "explicit_cases", lambda tier: [])(a.tier))
    for j, case in enumerate(explicit):
        if j % a.workers != a.index:
            continue
        try:
            one(case)
        except Violation:
            break
        except BaseException as e:
            st["error"] = "worker %d (explicit case %d): %s" % (a.index, j, "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            break
    if st["best"] is None and st["error"] is None and cases > 0:
        search(mod.strategy(a.tier), cases, a.seed * 1000 + a.index)

    samples = []
    for s in st["samples"]:
        txt = canonical(s)
        samples.append(json.loads(txt) if len(txt) < 4000 else txt[:4000] + "...")
    with open(a.out + ".tmp", "w") as f:
        json.dump({"info": prop_info(mod), "evaluations": st["evaluations"], "inconclusive": st["inconclusive"],
                   "nontrivial": sorted(st["nontrivial"]), "labels": st["labels"], "samples": samples,
                   "failure": st["best"], "error": st["error"]}, f, default=str)
    os.rename(a.out + ".tmp", a.out)


if __name__ == "__main__":
    main()
