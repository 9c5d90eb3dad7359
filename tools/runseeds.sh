#!/bin/bash
# runseeds.sh [id...]: runs each planted change's check on a scratch copy of /repo with the change applied
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
	t=$(mktemp -d /tmp/seedrun.XXXXXX)
	cp -a /repo "$t/repo"
	git -C "$t/repo" checkout -q -- .
	git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$t"; continue; }
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
	s=$(date +%s)
	GOSYM_REPO="$t/repo" timeout 900 bash check.sh "$p" > "$t/out" 2>&1
	rc=$?
	v=$(grep -c "^VIOLATION property=$p " "$t/out")
	if [ $rc = 1 ] && [ "$v" -gt 0 ]; then r=caught; else r="MISSED rc=$rc"; fi
	echo "$id: $r $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' "$t/out" | cut -c1-150)"
	[ "$r" = caught ] || tail -5 "$t/out"
	rm -rf "$t"
done
