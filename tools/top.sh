#!/bin/bash
# slowest scenarios of a check
cd "$(dirname "$0")/.."; ./run.sh "$1" -v ${@:3} 2>&1 | tee /tmp/top.out | grep "paths=" | grep -v scenarios= | sed -E 's/^(.*) ([0-9.]+)s \[(.*)$/\2 \1 [\3/' | sort -rn | head -${2:-15}; grep -E "VIOL|scenarios=|inconcl|KNOWN|FINDING" /tmp/top.out | cut -c1-600
