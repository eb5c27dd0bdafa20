#!/bin/bash
# plant.sh ID [notests]: confirm a planted bug (/verif/seeded/ID) in a scratch copy of /repo, bind-mounted
# over /repo (and a copy of /verif over /verif) in a private mount namespace: builds, demo fails, stable tests pass, which check reports it.
# The scratch copy is /tmp/plant (cp -a /repo /tmp/plant).
id=$1; mode=${2:-}
RP=${REPO:-/repo}; VF=${VERIF:-/verif}
S=$VF/seeded/$id; P=/tmp/plant; L=/tmp/plant-log/$id; mkdir -p "$L"
[ -d $P ] || cp -a $RP $P
git -C $P checkout -q -- . && git -C $P fetch -q $RP HEAD && git -C $P reset -q --hard FETCH_HEAD
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
V=/tmp/pverif; mkdir -p $V
rsync -a --delete --exclude target --exclude evidence --exclude .git --exclude seeded $VF/ $V/
find $V/harness -name "*.rs" -exec touch {} +
run() { unshare -m bash -c "mount --bind $P /repo; mount --bind $V /verif; $1"; }
demo=$(mktemp -d); cp -r "$S" "$demo/x"; rm -f "$demo"/x/*.diff "$demo"/x/meta.json
run "cd /repo && timeout 300 bash $demo/x/demo.sh" >"$L/demo0" 2>&1; echo "$id demo-unchanged rc=$?"
git -C $P apply "$S/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
if [ "$mode" != notests ]; then
  run "bash /opt/vp/build.sh" >"$L/build" 2>&1 || { echo "$id BUILD FAILED"; tail -5 "$L/build"; git -C $P checkout -q -- .; exit 1; }
fi
run "cd /repo && timeout 300 bash $demo/x/demo.sh" >"$L/demo1" 2>&1; echo "$id demo-patched rc=$?"
run "bash /verif/run.sh $prop quick" >"$L/check" 2>&1; echo "$id check $prop rc=$? $(grep -m1 VIOLATION "$L/check" | cut -c1-150)"
if [ "$mode" != notests ]; then
  run "bash /opt/vp/test.sh $L/t.json" | tail -1
  python3 - "$L/t.json" "$id" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
bp=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
tp=t.get('passed') or t.get('pass')
miss=[x for x in bp if x not in set(tp)]
print(sys.argv[2],'stable tests missing:',len(miss),miss[:3])
PY
fi
git -C $P checkout -q -- .
