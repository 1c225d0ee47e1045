#!/bin/bash
# tools/repotest.sh: build /repo's working tree and run its tests in a private copy bind-mounted over /repo.
W=/tmp/repotest-$$
cp -a /repo "$W"
unshare -Urm bash -s "$W" <<'X'
mount --bind "$1" /repo
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
cd /repo; git tag -d vcheck-pass >/dev/null 2>&1
bash /opt/vp/build.sh > /tmp/repotest.build 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/repotest.json > /tmp/repotest.log 2>&1
python3 - <<'P'
import json
a = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b = set(json.load(open('/tmp/repotest.json'))['passed'])
print("%d of %d stable tests pass" % (len(a & b), len(a)), sorted(a - b)[:5])
P
X
rm -rf "$W"
