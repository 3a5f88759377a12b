#!/bin/sh
# all checks on the current tree; prints what is not quiet
cd "$(dirname "$0")/.."; for c in sa/rules/c[0-9]*.py; do basename $c .py | tr c C; done | xargs -P ${1:-6} -I{} sh -c 'timeout 900 env VERIF_EVIDENCE=/tmp/ev python3 -m sa.run {} > /tmp/all.{}.log 2>&1; r=$?; grep -q UNDECIDED /tmp/all.{}.log && echo "{} undecided $(grep -c UNDECIDED /tmp/all.{}.log)"; [ $r = 0 ] || { echo "{} rc=$r"; grep -v KNOWN /tmp/all.{}.log | head -3 | cut -c1-250; }'
