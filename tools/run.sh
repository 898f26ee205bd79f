#!/bin/sh
# Run checks and show what a violation looks like: tools/run.sh C01 C02 ...
cd "$(dirname "$0")/.." || exit 2
for c in "$@"; do
  ./check "$c" -v > /tmp/run.out 2>&1; s=$?
  cut -c1-2500 /tmp/run.out; echo "exit $s"
  r=$(sed -n 's/^VIOLATION.*replay=//p' /tmp/run.out)
  [ -n "$r" ] && python3 tools/show.py "$r"
done
