#!/bin/bash
# builds the fact extractor if needed and extracts /repo's MIR into work/facts.json
set -e
cd "$(dirname "$0")"
V=$PWD
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p work evidence
exec 9>work/lock; flock 9
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
if [ ! -x analyzer/target/debug/mcfacts ] || [ -n "$(find analyzer/src analyzer/Cargo.toml -newer analyzer/target/debug/mcfacts)" ]; then
  (cd analyzer && cargo +nightly build --offline -q) >&2
fi
SYS=$(rustc +nightly --print sysroot)
OUT=${MC_OUT:-$V/work/facts.json}
rm -f "$OUT"
cd "${MC_REPO:-/repo}"
PROF=
# the release profile, with the overflow checks kept so that arithmetic reads the same: what differs is debug_assert and cfg(debug_assertions)
[ "${MC_PROFILE:-dev}" = release ] && { PROF=--release; export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true; }
CARGO_TARGET_DIR=$V/work/target cargo +nightly clean $PROF -p libmcaptcha --offline -q 2>/dev/null || true
LD_LIBRARY_PATH=$SYS/lib MCFACTS_CRATE=libmcaptcha MCFACTS_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$V/analyzer/target/debug/mcfacts CARGO_TARGET_DIR=$V/work/target cargo +nightly check $PROF --lib --offline -q >"$V/work/extract.log" 2>&1 || { cat "$V/work/extract.log" >&2; exit 3; }
test -s "$OUT"
