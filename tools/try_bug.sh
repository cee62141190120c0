#!/bin/bash
# try_bug.sh DIR [check ids...]: confirms a planted bug in a private mount namespace (a scratch copy of /repo is
# mounted over /repo there) and runs the checks of its property (or the ones given) against it.
D=$(cd "$1" && pwd); ID=$(basename "$D"); shift
P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$D/meta.json")
CHECKS=${*:-$P}
W=/tmp/try/$ID; rm -rf "$W"; mkdir -p "$W/build" "$W/replay" "$W/evidence"
cp -a /repo "$W/repo"
{
git -C "$W/repo" apply "$D/patch.diff" || { echo "$ID: DOES NOT APPLY"; exit 1; }
(cd /repo && timeout 300 bash "$D/demo.sh" > "$W/demo0" 2>&1); rc0=$?
ns() { unshare -m bash -c "mount --bind $W/repo /repo; mount --bind $W/build /verif/.build; mount --bind $W/replay /verif/replay; mount --bind $W/evidence /verif/evidence; cd /repo; $1"; }
if [ -z "$NOTESTS" ]; then
ns "bash /opt/vp/build.sh" > "$W/b" 2>&1; rcb=$?
ns "bash /opt/vp/test.sh $W/t.json" > "$W/t" 2>&1
miss=$(python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b['stable'] if x not in t]
print(len(m), m[:3])
P
)
fi
ns "timeout 300 bash $D/demo.sh" > "$W/demo1" 2>&1; rc1=$?
echo "$ID: property $P, build rc=$rcb, stable tests missing: $miss, demo unchanged rc=$rc0, demo patched rc=$rc1"
for c in $CHECKS; do
  ns "cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 check.py $c" > "$W/c.$c" 2>&1; rc=$?
  echo "$ID: check $c rc=$rc $(grep -a -m1 -B2 VIOLATION "$W/c.$c" | head -2 | tr '\n' ' ' | cut -c1-220)"
done
} 2>&1 | tee "$W/report"
[ -n "$KEEP" ] || rm -rf "$W/repo" "$W/build"
