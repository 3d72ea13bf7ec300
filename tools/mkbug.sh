#!/bin/bash
# mkbug.sh <id>: takes the working-tree difference of /tmp/wt (a scratch copy of /repo) as seeded/<id>/patch.diff, and checks it
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no difference"; exit 1; }
[ -f $d/demo.sh ] || cp /verif/tools/demo/demo.sh $d/
if grep -q fibers.h $d/demo.cpp 2>/dev/null; then mkdir -p $d/boost; cp /verif/tools/demo/boost/atomic.hpp $d/boost/; cp /verif/tools/demo/fibers.h $d/; fi
chmod +x $d/demo.sh
cd /repo && bash $d/demo.sh >/tmp/o1 2>&1 && echo "clean ok" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/o1; exit 1; }
git -C /repo apply --check $d/patch.diff
cd /tmp/wt && if bash $d/demo.sh >/tmp/o1 2>&1; then echo "DEMO PASSES WITH BUG"; exit 1; else echo "bug shown: $(tail -1 /tmp/o1)"; fi
cd /repo && git apply $d/patch.diff && (bash /opt/vp/test.sh /tmp/o.json >/tmp/o2 2>&1; git checkout -q -- .; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b.get('stable',b.get('passed',b.get('tests',[])))); print('tests missing:', sorted(st-set(o['passed']))[:5], 'failed', o['failed'][:5])
P
)
git -C /tmp/wt checkout -q -- .
