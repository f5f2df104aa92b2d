#!/bin/bash
# catch.sh [id...]: applies each planted bug to /repo, runs its property's check (or, with
# ALL=1, every check), undoes it, and prints which checks raised a violation.
cd /verif || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
	[ -f "seeded/$id/patch.diff" ] || continue
	p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	if [ -n "$ALL" ]; then ps=$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'); else ps=$p; fi
	hit=
	for q in $ps; do
		out=$(bash run.sh "$q" 2>&1); rc=$?
		if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$q " <<<"$out"; then hit="$hit $q"; elif [ $rc -ne 0 ]; then hit="$hit $q(rc=$rc)"; fi
	done
	git -C /repo checkout -q -- .
	case " $hit " in *" $p "*) s=caught;; *) s=MISSED;; esac
	echo "$id ($p): $s by:$hit"
done
