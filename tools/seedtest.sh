#!/bin/bash
# seedtest.sh ID [PROPERTY...]: confirms a planted bug in a scratch copy of /repo bound over /repo in a mount namespace,
# and runs the checks (default: the property named by meta.json) against it.
# Without notest=1 the repository's tests are run too.
if [ -z "$SEED_NS" ]; then
    [ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
    git -C /tmp/seedrepo fetch -q /repo HEAD && git -C /tmp/seedrepo reset -q --hard FETCH_HEAD
    SEED_NS=1 exec unshare -m bash "$0" "$@"
fi
mount --bind /tmp/seedrepo /repo || exit 2
ID=$1; shift
V=${VERIF:-/verif}; D=$V/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cp -r "$D" /tmp/seed-$ID; rm -f /tmp/seed-$ID/{patch.diff,meta.json}
cd /repo
[ -n "$nobase" ] || { bash /opt/vp/build.sh > /tmp/seed-$ID.log 2>&1; bash /tmp/seed-$ID/demo.sh > /tmp/seed-$ID.out 2>&1 && echo "$ID demo-unchanged ok" || { echo "$ID DEMO FAILS UNCHANGED"; tail -20 /tmp/seed-$ID.out; }; }
git apply "$D/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >> /tmp/seed-$ID.log 2>&1 || { echo "$ID DOES NOT BUILD"; tail -20 /tmp/seed-$ID.log; }
bash /tmp/seed-$ID/demo.sh > /tmp/seed-$ID.out 2>&1 && echo "$ID DEMO PASSES WITH PATCH" || { echo "$ID demo-patched fails ok: $(tail -1 /tmp/seed-$ID.out | cut -c1-150)"; }
[ -n "$notest" ] || { bash /opt/vp/test.sh /tmp/seed-$ID.json >> /tmp/seed-$ID.log 2>&1
python3 - <<EOF
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=set(b.get('stable') or b); p=set(json.load(open('/tmp/seed-$ID.json'))['passed'])
print('$ID', 'tests ok' if b<=p else 'TESTS FAIL: %s' % sorted(b-p)[:5])
EOF
}
cd $V
for p in $P; do
    timeout 900 python3 check.py $p > /tmp/seed-$ID.check 2>/tmp/seed-$ID.err; r=$?
    [ $r = 1 ] && grep -q "VIOLATION property=$p " /tmp/seed-$ID.check && echo "$ID caught by $p: $(grep -A1 '^\[P' /tmp/seed-$ID.err | tail -1 | cut -c1-200)" || { echo "$ID MISSED by $p (rc=$r) $(tail -1 /tmp/seed-$ID.err)"; }
done
rm -r /tmp/seed-$ID
