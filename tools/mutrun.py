#!/usr/bin/env python3
"""Applies each mutant of mutants.py to a scratch copy of /repo, builds the simulator from it in a scratch build
directory and runs the quick check of the expected property (and, if that is quiet, of all others).
usage: mutrun.py [--all] [-j N] [id-prefix ...]"""
import os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutants import MUTANTS
args = sys.argv[1:]
oth = "--others" in args; args = [a for a in args if a != "--others"]
allp = "--all" in args; args = [a for a in args if a != "--all"]
jobs = 2
if "-j" in args:
    i = args.index("-j"); jobs = int(args[i+1]); del args[i:i+2]
if any(a.startswith("seed:") for a in args):   # planted bugs: ("seed:<id>", property, patch file)
    for k in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        f = os.path.join(VERIF, "seeded", k)
        MUTANTS.append(("seed:" + k, json.load(open(f + "/meta.json"))["property"], None, f + "/patch.diff"))
todo = [m for m in MUTANTS if not args or any(m[0].startswith(a) for a in args)]
ROOT = os.environ.get("MUTROOT", "/tmp/mut")
PROPS = ["P%02d" % i for i in range(1, 30)]
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
PROPS = [c.get("property") or c.get("property_id") or c.get("id") for c in man["checks"]]
from queue import Queue
slots = Queue()
for w in range(jobs):
    d = f"{ROOT}/{w}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "replays"))
    slots.put(d)
def apply(repo, m):
    if m[2] is None:
        return "does not apply" if subprocess.call(["git", "-C", repo, "apply", m[3]]) else None
    if isinstance(m[2], list):
        for e in m[2]:
            err = apply(repo, (m[0], m[1]) + tuple(e))
            if err: return err
        return None
    p = f"{repo}/{m[2]}"; s = open(p).read()
    n = m[5] if len(m) > 5 else None
    cnt = s.count(m[3])
    if n is None:
        if cnt != 1: return f"occurs {cnt}"
        s2 = s.replace(m[3], m[4])
    else:
        parts = s.split(m[3])
        if cnt < n: return f"occurs {cnt}"
        s2 = m[3].join(parts[:n]) + m[4] + m[3].join(parts[n:])
    open(p, "w").write(s2)
    return None
def work(m):
    d = slots.get()
    try:
        repo = d + "/repo"
        err = apply(repo, m)
        if err: return m, "NOAPPLY " + err
        env = dict(os.environ, USCADA_REPO=repo, USCADA_SIM_BUILD=d + "/verif/build", VERIF_SEED="1", VERIF_TIER="quick")
        out = []
        order = [m[1]] + ([p for p in PROPS if p != m[1]] if allp or oth else [])
        for i, p in enumerate(order):
            r = subprocess.run(["python3", d + "/verif/check.py", p], env=env, capture_output=True, text=True, timeout=1500)
            if r.returncode not in (0, 1): return m, f"BROKEN {p} rc={r.returncode} " + (r.stdout + r.stderr)[-300:]
            if "VIOLATION" in r.stdout:
                line = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l][:2]
                out.append(p)
                if not allp: break
        return m, ("CAUGHT " if m[1] in out else "other " if out else "MISSED ") + " ".join(out)
    finally:
        subprocess.call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        slots.put(d)
from concurrent.futures import as_completed
with ThreadPoolExecutor(jobs) as ex:
    for f in as_completed([ex.submit(work, m) for m in todo]):
        m, res = f.result()
        print(f"{m[0]:28} {m[1]} {res}", flush=True)
shutil.rmtree(ROOT)
