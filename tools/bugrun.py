#!/usr/bin/env python3
"""bugrun.py [--all] id...: applies each seeded patch to /repo, runs the check of its property (or all checks), undoes it."""
import json, subprocess, sys, os
sys.path.insert(0, "/verif")
import plan
args = sys.argv[1:]
allc = "--all" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, prop, "PATCH DOES NOT APPLY", flush=True)
        continue
    try:
        for p in ([prop] + [q for q in plan.PLAN if q != prop] if allc else [prop]):
            r = subprocess.run(["python3", "/verif/check.py", p, "quick"], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
            print(i, p, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "RC %d %s" % (r.returncode, r.stderr[-300:]),
                  v[0][:170] if v else "", r.stdout.splitlines()[-1][-60:] if r.stdout else "", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
