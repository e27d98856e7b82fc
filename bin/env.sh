# Common environment: the toolchain and caches of the sandbox, offline.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR
export VERIF_REPO=${VERIF_REPO:-/repo}

# build_harness OUT [go build flags]: builds the monitors together with the
# library from the working tree of /repo.
build_harness() {
	local out=$1
	shift
	(cd "$VERIF_DIR/harness" && { go build "$@" -o "$out" . || go build -tags reduced "$@" -o "$out" .; }) || {
		echo "the monitors do not build against $VERIF_REPO"
		return 2
	}
}

# build_for PROP DIR: C22 gets the race detector and scheduling points in front
# of every statement of the library (through an overlay; /repo is not touched).
build_for() {
	local prop=$1 dir=$2
	if [ "$prop" != C22 ]; then
		build_harness "$dir/harness"
		return
	fi
	export GORACE="halt_on_error=1 exitcode=66"
	mkdir -p "$dir/overlay"
	if build_harness "$dir/plain" && "$dir/plain" instrument "$dir/overlay" &&
		build_harness "$dir/harness" -race -overlay "$dir/overlay/overlay.json" 2>"$dir/overlay.log"; then
		export VERIF_YIELD=1
		return 0
	fi
	echo "building without scheduling points"
	build_harness "$dir/harness" -race
}

# fuzz_stage PROP DIR: the same monitors, driven by the coverage-guided engine of
# the Go toolchain for VERIF_FUZZTIME (thorough tier only).
fuzz_stage() {
	local prop=$1 dir=$2 time=${VERIF_FUZZTIME:-240s}
	mkdir -p "$dir/fuzz/cache" "$dir/fuzz/cwd"
	(cd "$VERIF_DIR/harness" && go test -c -fuzz=FuzzProp -o "$dir/fuzz/bin" .) || return 2
	(cd "$dir/fuzz/cwd" && VERIF_PROP=$prop timeout -k 10 3600 "$dir/fuzz/bin" -test.run='^$' -test.fuzz=FuzzProp \
		-test.fuzzcachedir="$dir/fuzz/cache" -test.fuzztime="$time" -test.fuzzminimizetime=20s -test.parallel=8) \
		>"$dir/fuzz/log" 2>&1
	local line
	line=$(grep -a '^fuzz: elapsed' "$dir/fuzz/log" | tail -1)
	echo "${line:-$(tail -5 "$dir/fuzz/log")}"
	"$dir/harness" fuzznote "$prop" "$line"
	local found=0 f
	for f in "$dir"/fuzz/cwd/testdata/fuzz/FuzzProp/*; do
		[ -f "$f" ] || continue
		found=1
		"$dir/harness" fuzzfile "$prop" "$f" || return 1
	done
	[ $found = 0 ] || echo "property $prop: an input kept by the fuzzing engine does not fail again"
	return 0
}
