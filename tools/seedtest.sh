#!/bin/bash
# seedtest.sh [ID...]: runs the quick check of each planted bug's property
# against a scratch copy of /repo with the bug applied (and a scratch copy of
# the monitors), and says which are caught. A development aid.
# Environment: JOBS (2), PROPS ("own" or a list of properties to run).
cd "$(dirname "$0")/.." || exit 2
V=$PWD
one() {
	id=$1
	tmp=$(mktemp -d /tmp/seedtest-XXXXXX)
	git clone -q /repo "$tmp/repo" && git -C "$tmp/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$tmp"; return; }
	mkdir "$tmp/verif" && cp -a "$V/harness" "$V/bin" "$V/known_findings.json" "$tmp/verif/"
	mkdir -p "$tmp/verif/evidence" "$tmp/verif/replays"
	sed -i "s|=> /repo|=> $tmp/repo|" "$tmp/verif/harness/go.mod"
	props=$PROPS
	[ -z "$props" ] || [ "$props" = own ] && props=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
	for p in $props; do
		s=$(date +%s)
		out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO=$tmp/repo timeout 900 bash "$tmp/verif/bin/check.sh" "$p" quick 2>&1)
		rc=$?
		e=$(( $(date +%s) - s ))
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then
			echo "$id $p CAUGHT ${e}s $(grep -m1 -A3 '^VIOLATION' <<<"$out" | tr '\n' ' ' | sed "s|$tmp||g" | cut -c1-200)"
		else
			echo "$id $p MISSED rc=$rc ${e}s $(tail -3 <<<"$out" | tr '\n' ' ' | cut -c1-200)"
		fi
	done
	rm -rf "$tmp"
}
export -f one
export V PROPS
if [ $# -eq 0 ]; then set -- $(ls seeded); fi
printf '%s\n' "$@" | xargs -P "${JOBS:-2}" -I{} bash -c 'one {}'
