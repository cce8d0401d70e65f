#!/bin/bash
# run every registered check (quick tier) and print its summary line
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  VF_VERBOSE=1 timeout 890 python3 vf.py check $p > /tmp/all_$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(grep -E "^$p \[" /tmp/all_$p.log | cut -c1-260)"
  grep -E "VIOLATION|KNOWN|mismatch|unconfirmed:|undecided:|vacuous|error" /tmp/all_$p.log | cut -c1-160 | head -5
done
