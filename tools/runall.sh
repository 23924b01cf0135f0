#!/bin/bash
# runall.sh [quick|thorough] [id ...]: every check, one line each
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(seq -f C%02g 1 32))
for i in "${ids[@]}"; do
    s=$(date +%s.%N); out=$(./check $i $tier 2>&1); rc=$?
    echo "$i rc=$rc $(echo "$(date +%s.%N) - $s" | bc | cut -c1-6)s $(head -1 <<<"$out" | cut -c1-120) $(grep -E 'VIOLATION|^undecided|KNOWN' <<<"$out" | head -2 | cut -c1-200)"
done
