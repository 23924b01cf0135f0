#!/bin/bash
# trybugs.sh [id ...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
    s=$(date +%s)
    out=$(./check $p quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION <<<"$out" | head -1) $(grep -E -- '--|^undecided' <<<"$out" | head -1 | cut -c1-160)"
done
