#!/bin/bash
# runs every rule (or those named) in parallel and prints one line each
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(python3 -c "
from dgcheck.rules import RULES
print(*sorted(RULES))" 2>/dev/null)
run(){ s=$(date +%s); out=$(timeout 900 python3 -m dgcheck $1 2>&1); rc=$?; e=$(date +%s); echo "$1 rc=$rc $((e-s))s $(echo "$out" | tail -1 | cut -c1-160)"; }
export -f run
printf "%s\n" $ids | xargs -P 8 -I{} bash -c 'run {}' | sort
