#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the monitors together with the
# library from the working tree, runs them, and gives their exit code.
. "$(dirname "$0")/env.sh"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
dir=$(mktemp -d /tmp/vh-build-XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
build_for "$prop" "$dir" || exit 2
"$dir/harness" run -prop "$prop" -tier "$tier"
rc=$?
if [ $rc = 0 ] && [ "$tier" = thorough ] && [ "$prop" != C22 ] && [ "$prop" != C27 ]; then
	fuzz_stage "$prop" "$dir"
	rc=$?
fi
exit $rc
