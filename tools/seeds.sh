#!/bin/bash
# seeds.sh [ID...]: applies each planted change to a scratch copy of /repo and runs the check of its property there
V=$(cd "$(dirname "$0")/.." && pwd)
one() { d=$V/seeded/$1; w=$(mktemp -d /tmp/seed_XXXX); git -C /repo archive HEAD | tar -x -C $w; mkdir $w/v; (cd $V && git ls-files -co --exclude-standard | grep -v ^seeded/ | tar -c -T - ) | tar -x -C $w/v
 patch -s -p1 -d $w < $d/patch.diff; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); s=$(date +%s)
 o=$(cd $w/v && VERIF_REPO=$w ./check $p 2>&1); r=$?; echo "$1 $p rc=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 -a 'violation 0' | cut -c1-150)"; rm -r -- "$w"; }
export -f one; export V
if [ $# = 0 ]; then set -- $(ls $V/seeded); fi
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
