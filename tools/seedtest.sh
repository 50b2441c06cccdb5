#!/bin/bash
# seedtest.sh [-t] ID...: on a scratch copy of /repo bound over /repo in a private mount namespace:
# demo on the clean tree (0), build with the patch, demo (non-zero), with -t the repository's tests, then the property's check.
if [ -z "$SEEDNS" ]; then
  S=/tmp/seed/repo; mkdir -p /tmp/seed
  rsync -a --delete /repo/ $S/
  exec env SEEDNS=1 unshare -Urm "$0" "$@"
fi
mount --bind /tmp/seed/repo /repo || exit 9
T=; [ "$1" = -t ] && { T=1; shift; }
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh > /tmp/seed/build.log 2>&1 || { echo "clean build failed"; exit 9; }
for id in "$@"; do
  d=${SEEDDIR:-/verif/seeded}/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  x=/tmp/seed/demo_$id; mkdir -p $x; cp $d/demo.* $x/ 
  bash $x/demo.sh > /tmp/seed/$id.clean 2>&1; c=$?
  if ! git apply $d/patch.diff; then echo "$id $P APPLY-FAILED"; continue; fi
  t=skip; k=skip
  ( [ -z "$T" ] && [ -z "$B" ] && B=lib; cmd="bash /opt/vp/build.sh"; $cmd ) > /tmp/seed/$id.build 2>&1 && b=ok || b=FAIL
  bash $x/demo.sh > /tmp/seed/$id.demo 2>&1; m=$?
  if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/seed/$id.json > /tmp/seed/$id.tests 2>&1; t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed/$id.json'))
l=[x for x in b['stable'] if x not in t['passed']];print('tests-ok' if not l else 'TESTS-FAIL:'+','.join(l[:4]).replace(' ','_'))"); fi
  if [ -z "$NOCHECK" ]; then timeout 900 python3 /verif/check.py $P > /tmp/seed/$id.check 2>&1; r=$?; grep -q "VIOLATION property=$P" /tmp/seed/$id.check && [ $r = 1 ] && k=CAUGHT || k="MISSED($r)"; fi
  ok=GOOD; [ $c = 0 ] && [ $m != 0 ] && [ $m != 3 ] && [ $b = ok ] || ok=BAD
  echo "$id $P $ok clean=$c patched=$m build=$b $t $k"
  git checkout -q -- .
done
