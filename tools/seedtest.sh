#!/bin/bash
# seedtest.sh ID [notests]
ID=$1; D=/verif/seeded/$ID; S=/tmp/sc-$ID; O=/tmp/so-$ID; rm -rf "$O"; mkdir -p "$O"
rm -rf "$S"; cp -a /repo "$S"; git -C "$S" checkout -q -- .
mkdir -p "$O/demo"; cp -a "$D"/. "$O/demo/"; rm -f "$O/demo/patch.diff" "$O/demo/meta.json"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
ns() { unshare -Urm sh -c "mount --bind $S /repo && cd /repo && $1"; }
ns "bash /opt/vp/build.sh" > $O/build0 2>&1 || echo "$ID: base build failed"
ns "timeout 300 bash $O/demo/demo.sh" > $O/demo0 2>&1; echo "$ID: demo unpatched rc=$?"
git -C "$S" apply "$D/patch.diff" || { echo "$ID: patch failed"; exit 1; }
ns "bash /opt/vp/build.sh" > $O/build1 2>&1 || echo "$ID: patched build failed"
ns "timeout 300 bash $O/demo/demo.sh" > $O/demo1 2>&1; echo "$ID: demo patched rc=$?"
if [ "$2" != notests ]; then ns "bash /opt/vp/test.sh $O/t.json" > $O/test 2>&1; echo "$ID: $(bash /tmp/cmp.sh $O/t.json | tail -1 | cut -c1-200)"; fi
if [ "$2" != nocheck ]; then s=$(date +%s); rm -rf "/tmp/vc-$ID"; mkdir "/tmp/vc-$ID"; cp -a /verif/. "/tmp/vc-$ID/"; ns "mount --bind /tmp/vc-$ID /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $P" > $O/check 2>&1; echo "$ID: check $P rc=$? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $O/check) $(grep -A1 -m1 VIOLATION $O/check | tail -1 | cut -c1-200)"; fi
rm -rf "$S" "/tmp/vc-$ID"
