#!/bin/bash
# developer tool: tools/seedtest.sh SEED_ID [notests] - tries a planted bug in scratch copies of /repo and /verif
base=$(cd "$(dirname "$0")/.." && pwd); id=$1; W=/tmp/seed-$id; S=$base/seeded/$id
rm -rf "$W"; mkdir -p "$W/verif"
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- . 
cp -r $base/engine $base/run.sh $base/tools $base/known-findings.json $base/properties.jsonl $base/MANIFEST.json "$W/verif/"
mkdir -p "$W/verif/evidence" "$W/demo"; cp -r "$S"/. "$W/demo/"; (cd "$W/demo"; find . -name '*.diff' -delete; rm -f meta.json)
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
. /opt/vp/env.sh
cd "$W/repo"
bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... >"$W/build.log" 2>&1; b=$?
bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1; d1=$?
t=skipped
if [ "$2" != notests ]; then
  sed "s#/repo#$W/repo#g; s#/opt/vp/work#$W/work#g" /opt/vp/test.sh > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1
  t=$(python3 -c "
import json
a=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(a['passed'])) or 'ok')")
fi
VERIF_REPO=$W/repo bash "$W/verif/run.sh" "$prop" >"$W/check.log" 2>&1; c=$?
echo "$id: prop=$prop build=$b demo0=$d0 demo1=$d1 tests=$t check=$c $(grep -m1 -o 'VIOLATION property=.*' "$W/check.log")"
[ -n "$KEEP" ] || rm -rf "$W"
