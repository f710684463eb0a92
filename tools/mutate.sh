#!/bin/bash
# mutate.sh ID FILE(relative to /repo/packages) PYTHON-OLD PYTHON-NEW : applies one textual change, runs the check, undoes it.
id=$1; R=${VERIF_REPO:-/repo}; f=$R/packages/$2; old=$3; new=$4
[ -z "$(git -C $R status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 9; }
OLD="$old" NEW="$new" python3 - "$f" <<'P' || exit 9
import os,sys
p=sys.argv[1]; s=open(p).read(); o=os.environ["OLD"]; n=os.environ["NEW"]
if s.count(o)<1: print("NOT FOUND:",o); sys.exit(1)
open(p,"w").write(s.replace(o,n,1))
P
out=$(cd /verif && node bin/check.mjs $id 2>&1); rc=$?
git -C $R checkout -q -- .
if [ $rc = 1 ]; then echo "caught   [$id] $old -> $new"; echo "$out" | grep -B1 -m1 VIOLATION | head -1 | cut -c1-200
elif [ $rc = 0 ]; then echo "MISSED   [$id] $old -> $new"; else echo "rc=$rc [$id] $old -> $new"; echo "$out" | tail -3; fi
