#!/bin/bash
# runseed.sh [-a] <seed id>...: apply each planted bug to a scratch clone and run the check of its property (-a: all checks)
all=; [ "$1" = -a ] && { all=1; shift; }
cd "$(dirname "$0")/.." || exit 1
for id in ${@:-$(ls seeded)}; do
	w=$(mktemp -d /tmp/rs-XXXXXX); git clone -q /repo $w/r && git -C $w/r apply $PWD/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf $w; continue; }
	ps=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	[ -n "$all" ] && ps=$(cd checks && ls C*.py | sed 's/.py//')
	for p in $ps; do
		VF_REPO=$w/r VF_TMP=$w timeout 900 python3 checks/$p.py > $w/out 2>&1; rc=$?
		if [ $rc = 1 ]; then echo "$id: $p CATCHES: $(grep -A1 VIOLATION $w/out | sed -n 2p | cut -c1-150)"; elif [ -z "$all" ] || [ $rc != 0 ]; then echo "$id: $p rc=$rc"; fi
	done
	rm -rf $w
done
