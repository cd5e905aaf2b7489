# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them are caught by the check named).
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
old = dict(re.findall(r"^\| ([a-z0-9-]+) \| P\d\d[^|]*\| (.*?) \|$", s, re.M))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s |" % (i, m["property"], old.get(i) or m["what_it_breaks"]))
t = "<!-- seeds -->\n| planted bug | caught by (target check) | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
