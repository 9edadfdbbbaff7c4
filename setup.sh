#!/bin/bash
# builds the extractor and the oracle programs, and warms the build of the Kani crate's dependencies
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --offline -q) || exit 1
(cd native && cargo build --offline -q --bin api) || echo "api oracles do not build on this tree"
CARGO_PROFILE_DEV_OPT_LEVEL=2 cargo build --offline --locked -q --manifest-path /repo/Cargo.toml --bin adhoc_audio --target-dir native/target/cli 2>/dev/null || echo "the command line tool does not build on this tree"
mkdir -p build/inner build/kani
python3 tools/inner.py /repo build/inner && (cd build/inner && cargo build --offline -q --target-dir ../../native/target/inner) >/dev/null 2>&1 || echo "inner oracles do not build on this tree"
python3 tools/kanilay.py /repo build/kani >/dev/null && (cd build/kani && cargo kani -Z function-contracts --only-codegen) >/dev/null 2>&1 || echo "kani leaves do not build on this tree"
exit 0
