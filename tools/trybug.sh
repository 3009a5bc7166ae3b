#!/bin/bash
# usage: trybug.sh SEED [PROPERTY...]: run the checks on a copy with the bug
ID=$1; shift; D=/verif/seeded/$ID; C=/tmp/trybug.$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
rm -rf "$C"; cp -a /repo $C; cd $C; git checkout -q -- .; git apply $D/patch.diff || exit 9
cd /verif
for p in $P; do s=$(date +%s); VF_OUT=/tmp/vfout.$ID VF_REPO=$C python3-vt vf/check.py $p quick >/tmp/trybug.$ID.$p.out 2>&1; r=$?
echo "$ID $p rc=$r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/trybug.$ID.$p.out)"; done
rm -rf "$C" "/tmp/vfout.$ID"
