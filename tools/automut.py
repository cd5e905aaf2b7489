#!/usr/bin/env python3
"""Blind mutation: makes small mechanical changes (statement deleted, condition negated, comparison or constant changed, ...)
at randomly drawn places of /repo's sources, in a scratch copy, and reports which of them no scenario notices.
usage: automut.py [-j slots] [-w workers] [-n count] [-s seed] [path-regex]"""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from plan import PLAN
def opt(f, d):
    if f in sys.argv:
        i = sys.argv.index(f); v = sys.argv[i + 1]; del sys.argv[i:i + 2]; return v
    return d
full = float(opt("-f", 0.4))
jobs, workers, num, seed = int(opt("-j", 1)), int(opt("-w", 4)), int(opt("-n", 50)), int(opt("-s", 1))
pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
ROOT = os.environ.get("MUTROOT", "/tmp/automut")
RUNS = {}
for v in PLAN.values():
    for s, n in v: RUNS[s] = max(RUNS.get(s, 0), n)
REACTOR = ["msg", "msgthrow", "timer", "timerthrow", "timerres", "link", "linkthrow", "linkres"]
MBC, MBS = ["mbclient", "mbclientfault"], ["mbserver", "mbserverfault", "mbserverflood", "mbserverchurn"]
UA = ["ua", "uafault", "uachurn", "uasess", "uaflood", "uafuzz"]
CONN, APP = ["uaconn", "uaconnfault"], ["app", "appfault"]
MAP = [("/logger/", ["log"]), ("/reactor/", REACTOR + MBS[1:2] + MBC[1:] + APP), ("/protocols/connection", CONN),
       ("/protocols/secure", []), ("/common/ua/", UA + CONN), ("/modbus/client", MBC + APP), ("/modbus/server", MBS + APP),
       ("/controller/|Deployer|main|connector|detector", APP), ("/modbus/", MBC + MBS + APP), ("/app/ua/", UA + APP),
       (".", REACTOR + MBC + MBS + UA + CONN + APP)]
def scens(f):
    for r, s in MAP:
        if re.search(r, f): return s
def candidates():
    out = []
    for d, sub, files in os.walk("/repo/src"):
        if re.search(r"/(ut|test|tests|mock|msg|types)(/|$)", d): continue
        for f in sorted(files):
            if not f.endswith((".cpp", ".hpp")): continue
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if not pat.search(p) or not scens("/" + p): continue
            infn = f.endswith(".cpp")
            for i, l in enumerate(re.sub(r"/\*.*?\*/", lambda m: "\n" * m[0].count("\n"), open(os.path.join("/repo", p)).read(), flags=re.S).split("\n")):
                t = l.strip()
                if not t or t.startswith(("//", "#", "LM(", "namespace", "class", "using", "*", "/*")) or "LM(" in t: continue
                if f.endswith(".hpp") and not l.startswith("        "): continue
                def add(k, new): 
                    if new != l: out.append((p, i, k, l, new))
                if re.match(r"^[\w:.\->\[\]<>]+(\(.*\)[\w.\->()]*)?\s*\(.*\);$", t) and not t.startswith(("return", "throw", "delete", "~")): add("del", l[:len(l) - len(t)] + ";")
                if re.match(r"^[\w.\->\[\]()]+ [+\-|&]?= .*;$", t): add("del", l[:len(l) - len(t)] + ";")
                if re.match(r"^(\+\+|--)?[\w.\->]+(\+\+|--)?;$", t) and ("++" in t or "--" in t): add("del", l[:len(l) - len(t)] + ";")
                m = re.match(r"^(\s*(?:else )?if \()(.*)(\))$", l)
                if m: add("neg", m[1] + "not (" + m[2] + ")" + m[3])
                if m: add("true", m[1] + "(" + m[2] + ") or true" + m[3])
                if m: add("false", m[1] + "(" + m[2] + ") and false" + m[3])
                if re.search(r"\b(if|for|while|return)\b|=", t) and "<<" not in t and ">>" not in t and "template" not in t and "include" not in t:
                    for a, b in ((" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + ")):
                        if a in l: add("op" + a.strip(), l.replace(a, b, 1))
                for m in re.finditer(r"(?<![\w\"'.#-])(\d+)(?![\w\".x'])", l):
                    if '"' not in l[:m.start()]: add("const", l[:m.start()] + str(int(m[1]) + 1) + l[m.end():])
                if t == "return true;": add("ret", l.replace("true", "false"))
                if t == "return false;": add("ret", l.replace("false", "true"))
                if t == "return;": add("del", l.replace("return;", ";"))
                if re.search(r"Result::(done|noerror|error)", t) and t.startswith("return"):
                    for x in ("done", "noerror", "error"): add("res", re.sub(r"Result::(done|noerror|error)", "Result::" + x, l))
                if re.search(r"transit<(\w+)>\(\)", t): pass
    return out
c = candidates()
rng = random.Random(seed)
rng.shuffle(c)
# at most one mutation per line, spread over the files
byfile, seen = {}, set()
for m in c:
    if (m[0], m[1]) in seen: continue
    seen.add((m[0], m[1])); byfile.setdefault(m[0], []).append(m)
todo, k = [], 0
files = sorted(byfile); rng.shuffle(files)
while len(todo) < num and any(len(byfile[f]) > k for f in files):
    for f in files:
        if len(byfile[f]) > k: todo.append(byfile[f][k])
    k += 1
todo = todo[:num]
print(f"{len(c)} candidates, {len(files)} files, {len(todo)} taken", flush=True)
slots = Queue()
for s in range(jobs):
    d = f"{ROOT}/{s}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "replays"))
    slots.put(d)
def work(m):
    d = slots.get()
    try:
        p = f"{d}/repo/{m[0]}"
        ls = open(p).read().split("\n")
        assert ls[m[1]] == m[3]
        ls[m[1]] = m[4]
        open(p, "w").write("\n".join(ls))
        env = dict(os.environ, USCADA_REPO=d + "/repo", USCADA_SIM_BUILD=d + "/verif/build")
        if subprocess.run(["python3", d + "/verif/build.py"], env=env, capture_output=True).returncode: return m, "nocompile"
        sr = d + "/verif/build/simrunner"
        for frac in (0.04, full):
            for s in scens("/" + m[0]):
                n = max(100, int(RUNS[s] * frac))
                ps = [subprocess.Popen([sr, "batch", s, "*", "1", str(i), str(workers), str(n), "300"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=d) for i in range(workers)]
                for q in ps:
                    for l in q.communicate()[0].split("\n"):
                        if l.startswith("V "):
                            for r in ps: r.kill()
                            x = re.search(r'"props":"([^"]*)".*?"msg":"(.{0,90})', l)
                            return m, f"caught {s} {x[1]} {x[2]}"
                        if l.startswith("E "): return m, "HARNESS " + s + l[:200]
        return m, "SURVIVED"
    except Exception as e:
        return m, "FAILED " + repr(e)
    finally:
        subprocess.call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        slots.put(d)
with ThreadPoolExecutor(jobs) as ex:
    for f in as_completed([ex.submit(work, m) for m in todo]):
        m, r = f.result()
        print(f"{r:12.160} | {m[0]}:{m[1] + 1} {m[2]}: {m[4].strip()}   <- {m[3].strip()}", flush=True)
shutil.rmtree(ROOT)
