#!/bin/bash
# every quick check once, as vcheck runs them; prints the failing ones.  quick_all.sh [seed] [more options of check.sh]
cd "$(dirname "$0")/.." || exit 2
seed=${1:-1}; shift
out=$(mktemp -d)
bad=0
for i in $(seq -w 1 30); do
    VERIF_SEED=$seed VERIF_TIER=quick bash check.sh C$i "$@" > "$out/C$i" 2>&1 || { bad=1; echo "C$i failed"; tail -30 "$out/C$i"; }
    grep -H VIOLATION "$out/C$i"
done
[ $bad = 0 ] && echo "all quiet"
rm -rf "$out"
exit $bad
