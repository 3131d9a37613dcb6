#!/bin/bash
# plant_test.sh ID...: confirms planted changes in a scratch copy bind-mounted over /repo in a private mount namespace:
# demo passes on the unchanged tree, the patch applies and builds, the stable tests pass, the demo fails.
here=$(cd "$(dirname "$0")/.." && pwd)
base=$(mktemp -d /tmp/plant.XXXXXX)
one() {
    id=$1; d=$base/$id; mkdir -p "$d"
    cp -a /repo "$d/repo"; git -C "$d/repo" checkout -q -- . ; cp -a /opt/vp/work "$d/work" 2>/dev/null || mkdir "$d/work"
    cp -a "$here/seeded/$id" "$d/demo"
    unshare -m bash -c "
      mount --bind $d/repo /repo; mount --bind $d/work /opt/vp/work; cd /repo
      export HOME=/root
      (cd /repo; timeout 300 bash $d/demo/demo.sh) > $d/demo0.log 2>&1; echo demo-unchanged rc=\$? > $d/res
      git apply $d/demo/patch.diff >> $d/res 2>&1 || { echo NOAPPLY >> $d/res; exit; }
      bash /opt/vp/test.sh $d/out.json > $d/test.log 2>&1
      python3 - >> $d/res <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$d/out.json'))
st=b.get('stable') or b.get('passed') or b
p=set(o['passed']); miss=[t for t in st if t not in p]
print('stable tests missing:', len(miss), miss[:4])
PY
      (cd /repo; timeout 300 bash $d/demo/demo.sh) > $d/demo1.log 2>&1; echo demo-patched rc=\$? >> $d/res
    "
    echo "== $id"; cat "$d/res"; tail -2 "$d/demo1.log"
}
for id in "$@"; do one "$id"; done
rm -rf "$base"
