#!/bin/bash
# tools/bug.sh ID [--test] [CHECK...]: apply seeded/ID to /repo, rebuild, run its
# demo (and the stable tests), run the named checks, then undo.  Development aid.
id=$1; shift
t=0; [ "$1" = --test ] && { t=1; shift; }
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh > /tmp/bug-build.log 2>&1 && echo "build ok" || { echo "BUILD FAILED"; tail -20 /tmp/bug-build.log; }
c=$(mktemp -d); cp -r "$d"/. "$c"; rm -f "$c"/patch.diff "$c"/meta.json
(cd /repo && timeout 300 bash "$c/demo.sh" > /tmp/bug-demo.log 2>&1); echo "demo with bug: rc=$? ($(tail -1 /tmp/bug-demo.log))"
if [ $t = 1 ]; then
  bash /opt/vp/test.sh /tmp/bug-test.json > /tmp/bug-test.log 2>&1; tail -1 /tmp/bug-test.log
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/bug-test.json'))
p=set(r.get('passed') or [k for k,v in r.items() if v=='pass'])
m=[x for x in b if x not in p]; print('stable tests not passing:', len(m), m[:5])
P
fi
for k in "$@"; do
  (cd /verif && timeout 900 python3 check.py $k --tier quick > /tmp/bug-$k.log 2>&1); echo "check $k: rc=$? $(grep -c '^VIOLATION' /tmp/bug-$k.log) violations: $(grep -v '^VIOLATION' /tmp/bug-$k.log | head -1 | cut -c1-300)"
done
git -C /repo checkout -- .
bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo && timeout 300 bash "$c/demo.sh" > /tmp/bug-demo.log 2>&1); echo "demo without bug: rc=$?"
rm -rf "$c"
