#!/bin/bash
# seed.sh ID... : confirms planted bugs in a scratch copy of /repo that is mounted over /repo in a private namespace:
# the demo passes without the patch and fails with it, the build and the stable tests pass with it; then runs the property's check.
set -u
S=/tmp/verif-seed-copy; rm -rf /tmp/verif-seed-copy; cp -a /repo $S
for id in "$@"; do
  unshare -Urm bash -c '
    id=$1; mount --bind /tmp/verif-seed-copy /repo || exit 9
    cd /repo; D=$(mktemp -d); cp -r /verif/seeded/$id/. $D; rm -f $D/*.diff $D/meta.json
    timeout 300 bash $D/demo.sh > $D/out0 2>&1; a=$?
    git apply /verif/seeded/$id/patch.diff || { echo "[$id] patch does not apply"; exit 9; }
    st=$(bash /verif/tools/stable.sh 2>&1 | tail -1)
    timeout 300 bash $D/demo.sh > $D/out1 2>&1; b=$?
    prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
    cd /verif; out=$(node bin/check.mjs $prop 2>&1); c=$?
    cd /repo; git checkout -q -- .; git clean -fdq packages
    echo "[$id] demo clean=$a patched=$b ($(tail -1 $D/out1 | cut -c1-100)) | $st | check $prop: $c $(echo "$out" | grep -B1 -m1 VIOLATION | head -1 | cut -c1-120)"
    [ $a = 0 ] || cat $D/out0 | tail -5
    /bin/rm -rf "$D"
  ' _ "$id"
done
rm -rf /tmp/verif-seed-copy
