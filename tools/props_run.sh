#!/bin/bash
# all checks of the manifest, quick tier, one line each (for development)
cd "$(dirname "$0")/.." || exit 1
for c in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  out=$(bash check.sh $c ${1:-quick} 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$out" | head -1)"
  [ $rc -ne 0 ] && echo "$out" | tail -25
done
