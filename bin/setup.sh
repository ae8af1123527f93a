#!/bin/bash
# Builds the harnesses, so that the checks need to rebuild little.
set -e
cd "$(dirname "$0")/.."
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true
(cd harness && cargo +stable build --offline --quiet)
