#!/bin/bash
# replay.sh FILE: runs the execution recorded in a replay file again, with its trace.
. "$(dirname "$0")/env.sh"
file=$1
dir=$(mktemp -d /tmp/vh-build-XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
prop=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)
build_for "$prop" "$dir" || exit 2
"$dir/harness" replay "$file"
