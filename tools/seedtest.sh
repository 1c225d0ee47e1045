#!/bin/bash
# tools/seedtest.sh ID [check...]: validate seeded/ID in a private copy of /repo bind-mounted over /repo, and run checks.
# Prints one line per step. Nothing outside the scratch copy is touched.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seed-$ID-$$
cp -a /repo "$W"
D=/tmp/seeddemo-$ID-$$
mkdir -p "$D"; cp -a "$V/seeded/$ID/." "$D/"; rm -f "$D"/*.diff "$D"/meta.json
if [ $# -eq 0 ]; then set -- $(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'].lower())"); fi
unshare -Urm bash -s "$ID" "$W" "$D" "$V" "$@" <<'X'
ID=$1 W=$2 D=$3 V=$4; shift 4
mount --bind "$W" /repo
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
cd /repo; git tag -d vcheck-pass >/dev/null 2>&1
if [ -z "$FAST" ]; then
[ -z "$BUILD" ] || bash /opt/vp/build.sh > /tmp/$ID.build0 2>&1
timeout 300 bash "$D/demo.sh" >/tmp/$ID.demo0 2>&1; echo "$ID demo unchanged: $? (want 0)"
fi
git apply "$V/seeded/$ID/patch.diff" || { echo "$ID APPLY FAILED"; exit 1; }
if [ -z "$FAST" ]; then
bash /opt/vp/test.sh /tmp/$ID.t.json >/tmp/$ID.tlog 2>&1
python3 - "$ID" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/%s.t.json' % sys.argv[1]))
bad = [x for x in b['stable'] if x not in t['passed']]
print(sys.argv[1], "tests:", "all pass" if not bad else "FAILED %s" % bad[:5])
P
timeout 300 bash "$D/demo.sh" >/tmp/$ID.demo1 2>&1; echo "$ID demo patched: $? (want nonzero)"
fi
for c in "$@"; do
  cp -a "$V" "$W.v" ; 
  python3 "$W.v/checks/$c.py" >/tmp/$ID.$c.log 2>&1; echo "$ID check $c: exit $? $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/$ID.$c.log) $(grep -m1 'what:' /tmp/$ID.$c.log | cut -c1-160)"
  rm -rf "$W.v"
done
X
rm -rf "$W" "$D"
