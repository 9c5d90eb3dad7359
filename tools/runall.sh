#!/bin/bash
# runs every quick check; prints one line each
cd "$(dirname "$0")/.."
for i in $(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'); do
	s=$(date +%s); out=$(bash check.sh "$i" 2>&1); rc=$?
	echo "$i rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | tail -1 | cut -c1-200)"
done
