#!/bin/bash
# tools/try_bug.sh ID [checks...]: confirms the planted bug seeded/ID in a scratch copy that is mounted over /repo in a
# namespace of its own, and runs the check of its property (or the given ones) against it.
# NOTEST=1: skip the existing tests.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
checks=${*:-$prop}
w=/tmp/bugs/$id
rm -rf "/tmp/bugs/$id"; mkdir -p $w
cp -a /repo $w/repo
if [ -n "$NOTEST" ]; then rm -rf $w/repo/_build; fi
cp -a $here/seeded/$id $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
mkdir -p $w/verif; cp -a $here/check.py $here/harness $here/lib $here/known-findings.txt $w/verif/
ns() { unshare -Urm sh -c 'mount --bind "$0" /repo && cd /repo && exec "$@"' $w/repo "$@"; }
fail() { echo "$id: BAD $*"; rm -rf "/tmp/bugs/$id/repo"; exit 1; }
ns timeout 300 bash $w/demo/demo.sh > $w/demo0.log 2>&1 || fail "demo fails on the unchanged tree: $(tail -3 $w/demo0.log)"
ns git apply --check $here/seeded/$id/patch.diff || fail "patch does not apply"
ns git apply $here/seeded/$id/patch.diff
ns timeout 300 bash $w/demo/demo.sh > $w/demo1.log 2>&1 && fail "demo passes with the patch"
if [ -z "$NOTEST" ]; then
  ns bash /opt/vp/test.sh $w/o.json > $w/test.log 2>&1
  python3 - $w/o.json <<'P' || fail "existing tests"
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
stable=b['stable']
miss=[t for t in stable if t not in set(o['passed'])]
print('stable', len(stable), 'not passing', miss[:5])
sys.exit(1 if miss else 0)
P
fi
for c in $checks; do
  ( cd $w/verif; timeout 900 ./check.py $c --repo $w/repo > $w/$c.log 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" $w/$c.log; then echo "$id: CAUGHT by $c: $(grep -m1 '^\[' $w/$c.log | cut -c1-200)"; else echo "$id: MISSED by $c (rc $rc)"; fi )
done
rm -rf "/tmp/bugs/$id/repo"
