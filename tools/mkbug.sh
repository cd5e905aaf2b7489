#!/bin/bash
# mkbug.sh <id>: the working-tree change of /repo becomes seeded/<id>/patch.diff; confirms build, tests and demo with it and without it.
id=$1; d=/verif/seeded/$id
[ -d "$d" ] || { echo "no $d"; exit 2; }
[ -n "$(git -C /repo diff --name-only)" ] || { [ -f $d/patch.diff ] && git -C /repo apply $d/patch.diff; }
git -C /repo diff > $d/patch.diff
cp /verif/tools/demo/demo.sh /verif/tools/demo/*.hpp $d/ 2>/dev/null
chmod +x $d/demo.sh
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/mkbug.build 2>&1 || { tail -20 /tmp/mkbug.build; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/mkbug.json >/dev/null 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json'));b=json.load(open('/tmp/mkbug.json'))
miss=set(a['stable'])-set(b['passed'])
print('tests', 'ok' if not miss else 'MISSING %s'%miss)
P
cd /repo; echo "--- with patch"; bash $d/demo.sh; r1=$?
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/mkbug.build 2>&1
echo "--- without"; bash $d/demo.sh; r2=$?
[ $r1 -ne 0 ] && [ $r1 -ne 3 ] && [ $r2 -eq 0 ] && echo "BUG $id CONFIRMED" || echo "BUG $id NOT CONFIRMED ($r1 $r2)"
