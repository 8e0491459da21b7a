#!/bin/bash
# tools/seed.sh <id> [prop…]: confirms a planted bug in a scratch copy mounted over /repo (private mount namespace):
# demo passes unpatched, patch applies and builds, stable tests pass, demo fails, and what the checks say
id=$1; shift
[ -d /tmp/wt/.git ] || { rm -rf /tmp/wt; cp -a /repo /tmp/wt; }
git -C /tmp/wt checkout -q -- . ; git -C /tmp/wt fetch -q /repo && git -C /tmp/wt reset -q --hard "$(git -C /repo rev-parse HEAD)"
exec unshare -m bash -c '
mount --bind /tmp/wt /repo
cd /repo
id=$0; D=/verif/seeded/$id
if [ -z "$ONLYCHECK" ]; then
bash /opt/vp/build.sh > /tmp/wt.log 2>&1
bash $D/demo.sh > /tmp/demo0.log 2>&1; echo "demo unpatched rc=$?"
fi
git apply $D/patch.diff || exit 1
if [ -z "$ONLYCHECK" ]; then
bash /opt/vp/build.sh > /tmp/wt.log 2>&1 || { echo BUILD FAILS; grep -E "^error" -A6 /tmp/wt.log | head -30; }
bash /opt/vp/test.sh /tmp/wt.json > /tmp/wt2.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/wt.json"))
st=b.get("stable") or b.get("passing") or b
ps=set(r.get("passed") or r.get("passing") or [])
bad=[t for t in (st if isinstance(st,list) else st.get("passed",[])) if t not in ps]
print("tests: missing", len(bad), bad[:3])
P
bash $D/demo.sh > /tmp/demo1.log 2>&1; echo "demo patched rc=$?"
fi
cd /verif
for p in "$@"; do python3 check.py $p | cut -c1-${W:-260} | grep -v KNOWN; echo "$p rc=${PIPESTATUS[0]}"; done
git -C /repo checkout -q -- .
' "$id" "$@"
