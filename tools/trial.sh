#!/bin/bash
# runs a property's check against a scratch clone with one seeded change: trial.sh ID [PROP]
id=$1; d=/verif/seeded/$id; t=/tmp/trial_$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf "$t"; git clone -q /repo "$t"; git -C "$t" apply "$d/patch.diff" || exit 3
s=$(date +%s)
cd /verif; out=$(VERIF_REPO=$t VERIF_SEED=1 VERIF_TIER=quick bin/check $prop quick 2>&1); rc=$?
echo "$id $prop rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -E '^(VIOLATION|ok|ERROR)' | head -1)"
[ $rc -gt 1 ] && echo "$out" | tail -15
rm -rf "$t"
