#!/bin/bash
# Builds the conformance harness (offline) and parses the specification.
set -e
cd "$(dirname "$0")"
for c in "full --features std,serde" "n" "nstd --features std" "nserde --features serde"; do
  set -- $c
  t=$1; shift
  cargo build --offline --locked --release --manifest-path harness/Cargo.toml --target-dir build/target-$t "$@"
done
CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false \
  cargo build --offline --locked --release --manifest-path harness/Cargo.toml --target-dir build/target-plain --features std,serde
python3 lib/model.py build/model
