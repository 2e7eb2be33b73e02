#!/bin/bash
# builds both profiles of the simulator against /repo's current working tree; sets REL and CHK
V="${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
T="$V/sim/target"
REL="$T/release/dctsim"; CHK="$T/checked/dctsim"
export RUSTC_BOOTSTRAP=1   # std::alloc::set_alloc_error_hook
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$T"
_one() { (cd "$V/sim" && [ "$1" != checked ] || export RUSTC_WRAPPER="$V/sim/wrap.sh"; cd "$V/sim" && cargo build --offline --quiet --locked --profile "$1" --target-dir "$2" >"$T/build-$1.log" 2>&1); }
# the two profiles build at the same time, hence in two cargo target directories
_one release "$T" & _p=$!
_one checked "$T/c" ; _b=$?
wait $_p; _a=$?
CHK="$T/c/checked/dctsim"
if [ $_a -ne 0 ] || [ $_b -ne 0 ]; then cat "$T"/build-*.log >&2; echo "the simulator does not build against /repo" >&2; return 2 2>/dev/null || exit 2; fi
