#!/bin/bash
# developer helper: every property, quick tier; prints what is not proved
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  s=$(date +%s); ./run.sh $p > /tmp/all_$p.log 2>&1; e=$(( $(date +%s) - s ))
  echo "$p ${e}s $(grep -E "^$p:" /tmp/all_$p.log | cut -c1-140)"
  grep -E "undecided|VIOLATION|timeout" /tmp/all_$p.log | cut -c1-200
done
