#!/bin/bash
# setup.sh: compiles the monitors once, to fill the build cache.
. "$(dirname "$0")/env.sh"
dir=$(mktemp -d /tmp/vh-build-XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
build_harness "$dir/harness" || exit 1
build_harness "$dir/harness-race" -race || exit 1
echo ready
