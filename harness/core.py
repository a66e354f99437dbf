"""Driver and worker shared by every check.

A property module (props/cNN.py) offers
    ID, LEVEL, RULE, ASSUMPTIONS (list), QUICK (cases per worker), THOROUGH (cases per worker)
    strategy(tier)          -> Hypothesis strategy of JSON-able cases
    run(case, env)          -> Outcome (see below); raises Violation when the property is broken
Every case that touches process-wide state runs in a forked child (see sandbox.run_case).
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(AssertionError):
    """The property does not hold for this case."""


class Inconclusive(Exception):
    """The case could not be decided (a wall-clock limit of the harness ran out)."""


class Outcome(object):
    def __init__(self, nontrivial, labels=(), sample=None, n=1):
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.sample = sample
        self.n = n


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, default=str)


def digest(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()[:16]


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 512 * 1024 * 1024:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


# ------------------------------------------------------------------ driver
ZONES = ["Asia/Shanghai"] * 5 + ["UTC", "Asia/Kolkata", "Pacific/Honolulu"]     # of the workers in turn; none has daylight saving


def child_env(scratch, zone=ZONES[0]):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", TZ=zone, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONPATH=VERIF, LD_PRELOAD=os.path.join(scratch, "shim.so"),
               HOME=os.path.join(scratch, "home"), LC_ALL="C.UTF-8", PYTHONUTF8="0", HYPOTHESIS_STORAGE_DIRECTORY=
               os.path.join(scratch, "hypo"), VERIF_REPO=REPO)
    env.pop("PYTHONSTARTUP", None)
    return env


def build_shim(scratch):
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", os.path.join(scratch, "shim.so"),
                    os.path.join(VERIF, "harness", "shim.c"), "-ldl"], check=True)


def load_known(pid):
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    known.append(line)
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE") or 1))
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vchk_", dir=scratch_base())
    os.chmod(scratch, 0o755)
    try:
        os.makedirs(os.path.join(scratch, "home"))
        build_shim(scratch)
        if a.replay:
            with open(a.replay) as f:
                rec = json.load(f)
            zone = rec.get("zone", ZONES[0]) if isinstance(rec, dict) else ZONES[0]
            return subprocess.call([PY, "-m", "harness.worker", pid, "--replay", os.path.abspath(a.replay),
                                    "--scratch", scratch], env=child_env(scratch, zone), cwd=VERIF)
        return drive(pid, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(pid, a, scratch, t0):
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(EVIDENCE, "replays")):
        if f.startswith(pid + "_"):
            os.unlink(os.path.join(EVIDENCE, "replays", f))
    procs = []
    for i in range(WORKERS):
        out = os.path.join(scratch, "res%d.json" % i)
        log = open(os.path.join(scratch, "log%d" % i), "wb")
        procs.append((i, out, log, subprocess.Popen(
            [PY, "-m", "harness.worker", pid, "--index", str(i), "--workers", str(WORKERS), "--seed", str(a.seed),
             "--tier", a.tier, "--scratch", scratch, "--out", out, "--scale", str(a.scale)],
            env=child_env(scratch, ZONES[i % len(ZONES)]), cwd=VERIF, stdout=log, stderr=subprocess.STDOUT)))
    limit = 840 if a.tier == "quick" else 6 * 3600
    results, errors = [], []
    for i, out, log, p in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %d ran out of time" % i)
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(log.name, errors="replace") as f:
                errors.append("worker %d gave no result (rc %s): %s" % (i, p.returncode, f.read()[-2000:]))
    prop_info = results[0]["info"] if results else {"level": "exploration", "rule": "", "assumptions": []}
    keys, labels, samples, fails = set(), {}, [], []
    evals = inconc = 0
    for r in results:
        evals += r["evaluations"]
        inconc += r["inconclusive"]
        keys.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples.extend(r["samples"])
        if r.get("failure"):
            fails.append(r["failure"])
        if r.get("error"):
            errors.append(r["error"])
    fails.sort(key=lambda f: len(canonical(f["case"])))
    known = load_known(pid)
    new = []
    for f in fails:
        hit = [k for k in known if f.get("key") and ("key=%s" % f["key"]) in k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["message"].splitlines()[0]))
        else:
            new.append(f)
    for k in known:
        if not any(f.get("key") and ("key=%s" % f["key"]) in k for f in fails):
            print("KNOWN-FINDING: property=%s %s" % (pid, k.split(" ", 2)[2]))
    evidence = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": prop_info["level"],
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": prop_info["rule"],
                     "samples": samples[:6], "labels": dict(sorted(labels.items())), "inconclusive": inconc,
                     "workers": WORKERS},
        "assumptions": prop_info["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if new:
        evidence["coverage"]["first_violation"] = new[0]["message"][:2000]
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s"
          % (pid, a.tier, a.seed, evals, len(keys), inconc, time.time() - t0))
    if os.environ.get("VERIF_LABELS"):
        for k, v in sorted(labels.items()):
            print("   %-50s %d" % (k, v))
    if new:
        f = new[0]
        path = os.path.join(EVIDENCE, "replays", "%s_%s.json" % (pid, digest(f["case"])))
        with open(path, "w") as fp:
            json.dump(f, fp, indent=1, ensure_ascii=True, default=str)
        print(f["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("HARNESS ERROR:\n" + "\n".join(errors)[:6000])
        return 2
    if inconc > max(3, evals // 10):
        print("HARNESS ERROR: too many inconclusive cases")
        return 2
    if not keys:
        print("HARNESS ERROR: no non-trivial case was generated")
        return 2
    return 0
