#!/bin/bash
# dev/seed.sh <id> : validate a planted bug: patch applies, builds, stable tests pass,
# demo passes on the unchanged tree and fails with the patch (development aid)
set -u
S=/verif/seeded/$1
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
T=$(mktemp -d /tmp/seed.XXXX); cp -r $S/. $T/; rm -f $T/patch.diff $T/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build fails"; exit 2; }
timeout 300 bash $T/demo.sh >$T/base.log 2>&1; b=$?
git apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >$T/build.log 2>&1 || { tail -20 $T/build.log; echo "patched build fails"; exit 2; }
timeout 300 bash $T/demo.sh >$T/mut.log 2>&1; m=$?
t=skip
if [ "${2:-}" != nod ]; then
bash /opt/vp/test.sh $T/out.json >/dev/null 2>&1
t=$(python3 - $T/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]
print('ok' if not m else 'FAILED:'+','.join(m))
P
)
fi
echo "$1 base=$b patched=$m tests=$t"
tail -3 $T/base.log | sed 's/^/   base: /'; tail -3 $T/mut.log | sed 's/^/   mut: /'
rm -rf "$T"
