#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : build from /repo, search seeds, gate + minimise violations, write evidence."""
import json, os, subprocess, sys, time, threading, queue, select

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import plan

NCPU = max(1, min(8, os.cpu_count() or 1))


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == prop:
                    out.append(e)
    return out


class Search:
    def __init__(self, runner, prop, seedbase, tasks, wall, known):
        self.runner, self.prop, self.seedbase, self.wall = runner, prop, seedbase, wall
        self.known = known
        self.q = queue.Queue()
        for t in tasks:
            self.q.put(t)
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.viol, self.err = [], []
        self.known_hits = {}
        self.stats = {}
        self.hashes = {}        # scen -> set of schedule hashes of nontrivial runs
        self.full = {}          # scen -> set of full hashes
        self.first = {}         # scen -> [(seed, hash)]
        self.cov = 0
        self.t0 = time.time()

    def is_known(self, scen, v):
        for k in self.known:
            if k["scenario"] == scen.split(":")[0] and k["key"] == v["key"]:
                return k
        return None

    def worker(self):
        env = dict(os.environ, SIM_KEEP_GOING="1")
        while not self.stop.is_set():
            try:
                scen, start, step, count = self.q.get_nowait()
            except queue.Empty:
                return
            left = self.wall - (time.time() - self.t0)
            if left <= 1:
                return
            p = subprocess.Popen([self.runner, "batch", scen, self.prop, str(self.seedbase), str(start), str(step),
                                  str(count), "%.1f" % left], stdout=subprocess.PIPE, env=env, text=True,
                                 errors="replace", cwd=HERE)
            killed = False
            for line in p.stdout:
                tag, _, rest = line.rstrip("\n").partition(" ")
                if tag == "H":
                    a, b, seed = rest.split()
                    with self.lock:
                        self.hashes.setdefault(scen, set()).add(a)
                        self.full.setdefault(scen, set()).add(b)
                        f = self.first.setdefault(scen, [])
                        if start == 0 and len(f) < 6:
                            f.append((seed, b))
                elif tag == "V":
                    v = json.loads(rest.partition(" ")[2])
                    k = self.is_known(scen, v)
                    with self.lock:
                        if k:
                            self.known_hits.setdefault(k["id"], [k, 0, v["seed"]])[1] += 1
                        else:
                            self.viol.append((scen, v))
                            self.stop.set()
                elif tag == "E":
                    with self.lock:
                        self.err.append((scen, rest))
                        self.stop.set()
                elif tag == "S":
                    with self.lock:
                        self.merge(scen, json.loads(rest))
                elif tag == "C":
                    with self.lock:
                        self.cov |= int(rest, 16)
                if self.stop.is_set() and not killed:
                    killed = True
                    p.kill()
            p.wait()
            if p.returncode not in (0, 1) and not killed:
                with self.lock:
                    self.err.append((scen, "runner exit %d" % p.returncode))
                    self.stop.set()

    def merge(self, scen, s):
        d = self.stats.setdefault(scen, {"runs": 0, "nontrivial": 0, "steps": 0, "switches": 0, "blocks": 0, "sim_s": 0.0,
                                         "cpu_s": 0.0, "faults": {}, "counters": {}, "others": {}})
        for k in ("runs", "nontrivial", "steps", "switches", "blocks", "sim_s"):
            d[k] += s[k]
        d["cpu_s"] += s["wall"]
        for g in ("faults", "counters"):
            for k, (a, b) in s[g].items():
                x = d[g].setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
        for k, n in s["others"].items():
            d["others"][k] = d["others"].get(k, 0) + n

    def run(self):
        ts = [threading.Thread(target=self.worker) for _ in range(NCPU)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seedbase = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    runner = B.build()
    if runner is None:
        print("check: build failed", file=sys.stderr)
        return 3
    tb = time.time() - t0
    mult = plan.THOROUGH if tier == "thorough" else 1
    scale = float(os.environ.get("SIM_SCALE", "1"))
    wall = float(os.environ.get("SIM_WALL", "0")) or (3300 if tier == "thorough" else 420)
    scens = plan.PLAN[prop]
    tasks = []
    for k in range(NCPU):
        for scen, n in scens:
            tasks.append((scen, k, NCPU, max(NCPU, int(n * mult * scale))))
    known = known_findings(prop)
    s = Search(runner, prop, seedbase, tasks, wall, known)
    s.run()
    ts = time.time() - t0 - tb

    rc, nviol, replays = 0, 0, []
    if s.err:
        for scen, e in s.err[:5]:
            print("check: simulator error in %s: %s" % (scen, e), file=sys.stderr)
        rc = 3
    if s.viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rc = 3
        tried = 0
        for scen, v in sorted(s.viol, key=lambda x: (x[0], x[1]["seed"]))[:4]:
            out = os.path.join(HERE, "replays", "%s-%s-%s.replay" % (prop, scen.replace(":", "_"), v["seed"]))
            budget = 60 if tier == "thorough" else 25
            m = subprocess.run([runner, "minimise", scen, prop, str(v["seed"]), out, str(budget)], stdout=subprocess.PIPE,
                               text=True, errors="replace", cwd=HERE)
            tried += 1
            r = subprocess.run([runner, "replay", out, "--quiet"], stdout=subprocess.PIPE, text=True, errors="replace", cwd=HERE) \
                if m.returncode == 0 else None
            if r is not None and r.returncode == 1:
                info = {}
                for line in m.stdout.splitlines():
                    if line.startswith("M "):
                        info = json.loads(line[2:])
                nviol += 1
                replays.append({"replay": out, "scenario": scen, "seed": v["seed"], "message": v["msg"],
                                "choices_before": info.get("before"), "choices_after": info.get("after")})
                print("violation: scenario=%s seed=%s %s" % (scen, v["seed"], v["msg"]))
                print("VIOLATION property=%s replay=%s" % (prop, out))
                rc = 1
                break
            print("check: violation not reproducible (ignored): %s seed=%s %s\n%s" % (scen, v["seed"], v["msg"], m.stdout),
                  file=sys.stderr)
    # determinism: re-run some seeds in fresh processes and compare the hash of the whole execution
    rerun = mism = 0
    if rc == 0:
        for scen, _ in scens:
            f = s.first.get(scen, [])
            if not f:
                continue
            p = subprocess.run([runner, "batch", scen, prop, str(seedbase), "0", str(NCPU), str(NCPU * len(f)), "60"],
                               stdout=subprocess.PIPE, text=True, errors="replace", cwd=HERE, env=dict(os.environ, SIM_KEEP_GOING="1"))
            got = [l.split() for l in p.stdout.splitlines() if l.startswith("H ")]
            for (seed, h), g in zip(f, got):
                rerun += 1
                if g[3] != seed or g[2] != h:
                    mism += 1
        if mism:
            print("check: %d of %d re-executed seeds did not reproduce bit for bit" % (mism, rerun), file=sys.stderr)
    for kid, (k, n, seed) in sorted(s.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs, e.g. scenario=%s seed=%s)" % (prop, k["what"], n, k["scenario"], seed))
    for k in known:
        if k["id"] not in s.known_hits:
            print("KNOWN-FINDING: property=%s %s (listed; not hit in this run)" % (prop, k["what"]))

    runs = sum(d["runs"] for d in s.stats.values())
    nontriv = sum(d["nontrivial"] for d in s.stats.values())
    distinct = sum(len(x) for x in s.full.values())
    sched = sum(len(x) for x in s.hashes.values())
    faults = {}
    for d in s.stats.values():
        for k, (a, b) in d["faults"].items():
            if a:
                x = faults.setdefault(k, {"injected": 0, "runs": 0})
                x["injected"] += a
                x["runs"] += b
    samples = []
    for scen, _ in scens:
        f = s.first.get(scen, [])
        if f:
            p = subprocess.run([runner, "once", scen, f[0][0], "trace"], stdout=subprocess.PIPE, text=True, errors="replace", cwd=HERE)
            lines = p.stdout.splitlines()
            samples.append({"scenario": scen, "seed": int(f[0][0]), "hash": f[0][1], "events": len(lines),
                            "trace_head": [l[:160] for l in lines[:12]]})
    hours = max(ts, 0.001) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seedbase, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(nontriv, distinct),
            "rule": "one evaluation is one simulated run from one seed (schedule, delays, faults and operations all drawn from it); "
                    "it is non-trivial when the scenario reached its oracle with the behaviour under test exercised, and distinct "
                    "when the hash over its whole event history (switches, system calls, deliveries, faults) differs from every other run",
            "samples": samples,
            "nontrivial_runs": nontriv,
            "distinct_histories": distinct,
            "distinct_interleavings": sched,
            "interleaving_measure": "hash of the sequence (fiber switched to, kind of point) of every context switch of the run",
            "runs_per_hour": int(runs / hours),
            "search_wall_s": round(ts, 1), "build_wall_s": round(tb, 1),
            "simulated_seconds": round(sum(d["sim_s"] for d in s.stats.values()), 1),
            "context_switches": sum(d["switches"] for d in s.stats.values()),
            "basic_blocks_executed": sum(d["blocks"] for d in s.stats.values()),
            "distinct_basic_blocks_of_repo": bin(s.cov).count("1"),
            "faults_injected": faults,
            "determinism": {"seeds_reexecuted": rerun, "mismatches": mism},
            "scenarios": {k: {x: d[x] for x in ("runs", "nontrivial", "switches", "sim_s", "counters")} |
                          {"distinct_histories": len(s.full.get(k, ())), "violations_of_other_properties": d["others"]}
                          for k, d in s.stats.items()},
            "real_components": plan.REAL, "stubbed_components": plan.STUB,
            "replays": replays,
            "known_findings_hit": {k: v[1] for k, v in s.known_hits.items()},
        },
        "assumptions": plan.ASSUMPTIONS if hasattr(plan, "ASSUMPTIONS") else [],
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: %d runs, %d distinct, %.0f simulated s, build %.0f s, search %.0f s, rc %d" %
          (prop, tier, runs, distinct, ev["coverage"]["simulated_seconds"], tb, ts, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
