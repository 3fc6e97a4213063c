#!/bin/bash
# plant.sh ID PROPERTY: takes the working-tree change of the scratch copy /tmp/scr/repo as the patch of seeded/ID
# (demo.sh, demo.cpp, needs.txt, breaks.txt already there), confirms it, and runs the property's check on it. (development tool)
id=$1; prop=$2; d=/verif/seeded/$id
cd /tmp/scr/repo
[ -s "$d/needs.txt" ] || { echo "no needs.txt"; exit 1; }
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
python3 - "$d" "$prop" <<'P'
import sys,json,os
d,p=sys.argv[1:]
r=lambda f: " ".join(open(os.path.join(d,f)).read().split())
json.dump({"property":p,"needs":r("needs.txt"),"what_it_breaks":r("breaks.txt")},open(os.path.join(d,"meta.json"),"w"),indent=1)
P
bash "$d/demo.sh" > /tmp/scr/demo.out 2>&1; echo "demo with the patch: $? (want nonzero)"; tail -2 /tmp/scr/demo.out
VERIF_REPO=/tmp/scr/repo VERIF_SEED=1 python3 -B /verif/check.py $prop 2>&1 | tail -4
git checkout -q -- .
bash "$d/demo.sh" > /tmp/scr/demo.out 2>&1; echo "demo without: $? (want 0)"; tail -1 /tmp/scr/demo.out
rm -f "$d/needs.txt" "$d/breaks.txt"
