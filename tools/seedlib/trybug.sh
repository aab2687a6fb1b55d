#!/bin/bash
# trybug.sh ID [BUDGET]: demo on clean tree, patch, build, tests, demo, check, undo.
id=$1; b=${2:-15}; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 3; }
(cd /repo && bash $D/demo.sh >/tmp/try.$id.clean 2>&1); echo "$id demo clean rc $?"
git -C /repo apply $D/patch.diff || exit 3
bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/try.$id.json >/tmp/try.$id.test 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable') or list(b.values())[0]
o=json.load(open('/tmp/try.$id.json')); p=o.get('passed',o)
m=[t for t in b if t not in p]; print('$id tests missing', m[:6])
P
(cd /repo && bash $D/demo.sh >/tmp/try.$id.bug 2>&1); echo "$id demo bug rc $? $(tail -1 /tmp/try.$id.bug | cut -c1-160)"
for q in ${3:-$P}; do VERIF_BUDGET=$b timeout 880 python3 /verif/check.py $q quick >/tmp/try.$id.check 2>&1; echo "$id check $q rc $? $(grep -a VIOLATION /tmp/try.$id.check | head -1) $(grep -a -A3 VIOLATION /tmp/try.$id.check | sed -n 2p | cut -c1-220)"; done
git -C /repo checkout -- .
