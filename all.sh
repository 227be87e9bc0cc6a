#!/bin/bash
# all.sh [tier] [seed] [scale] [props...]: every check, one line each
T=${1:-quick}; S=${2:-1}; X=${3:-1}; shift 3
[ $# = 0 ] && set -- $(grep -o 'R("P[0-9]*' "$(dirname "$0")/pbt/table.cpp" | cut -c4- | sort -u)
for p in "$@"; do echo "== $p"; /usr/bin/time -f "%es" "$(dirname "$0")/check" $p --tier $T --seed $S --scale $X 2>&1 | cut -c1-1500; done
