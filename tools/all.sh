#!/bin/bash
# all checks one after another: tools/all.sh [Cxx...]
cd "$(dirname "$0")/.."
L="$*"; [ -z "$L" ] && L=$(ls checks | sed 's/\.py//' | tr c C)
for c in $L; do ./run.sh $c > /tmp/out.$c 2>&1; echo "$c rc=$? $(tail -1 /tmp/out.$c)"; grep -c "^INCONCLUSIVE" /tmp/out.$c | grep -v '^0$'; done
