#!/bin/bash
# run.sh SCRIPT.py [IDs]: applies a behaviour-preserving edit to a scratch clone
# of the library and runs the checks on it; every one has to stay quiet.
. "$(dirname "$0")/../../bin/env.sh"
script=$(realpath "$1"); shift
ids=${*:-$(seq -f "C%02g" 1 28)}
tmp=$(mktemp -d /tmp/refactor-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
git clone -q /repo "$tmp/repo" || exit 2
mkdir "$tmp/verif" && cp -a "$VERIF_DIR/harness" "$VERIF_DIR/bin" "$VERIF_DIR/known_findings.json" "$tmp/verif/"
mkdir "$tmp/verif/evidence" "$tmp/verif/replays"
sed -i "s|=> /repo|=> $tmp/repo|" "$tmp/verif/harness/go.mod"
(cd "$tmp/repo" && python3 "$script" && go build ./... && go test ./... 2>&1 | grep -v '^ok\|no test files'; git diff --stat | tail -1)
for id in $ids; do
	s=$(date +%s)
	bash "$tmp/verif/bin/check.sh" "$id" quick >"$tmp/log" 2>&1
	rc=$?
	echo "$id rc=$rc $(($(date +%s) - s)) s"
	[ $rc = 0 ] || head -60 "$tmp/log"
done
