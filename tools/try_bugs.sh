#!/bin/bash
# try_bugs.sh [-t tier] ID... : runs the check of the property of each planted bug against it
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
for id in "$@"; do
	d=/verif/seeded/$id
	prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply $d/patch.diff || exit 1
	s=$(date +%s)
	VERIF_SEED=${SEED:-1} VERIF_TIER=$tier python3 /verif/run.py $prop $tier > /tmp/try.out 2>&1; rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/try.out; then echo "caught $id by $prop ($(($(date +%s)-s)) s)"; else echo "MISSED $id by $prop rc=$rc"; fi
done
