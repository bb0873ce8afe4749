#!/bin/bash
# Runs demo.rs as an integration test of a scratch copy of the working tree.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$repo/target" RUST_LOG=off
unset BPF_OUT_DIR SBF_OUT_DIR
work=/tmp/seeded-demo-program
rm -rf /tmp/seeded-demo-program
mkdir -p "$work" && cp -r Cargo.toml Cargo.lock program clients "$work/" || exit 2
mkdir -p "$work/program/tests/demo"
cp "$here/demo.rs" "$work/program/tests/demo/main.rs"
cp "$here/common.rs" "$work/program/tests/demo/common.rs"
# Only the program is of interest. Building the whole workspace, as the repository's
# own build does, finds all of its dependencies built.
echo 'fn main() {}' > "$work/clients/cli/src/main.rs"
rm -f /tmp/seeded-demo-program/program/tests/duplicate_block_proof.rs
cd "$work" || exit 2
timeout -k 5 250 cargo test --workspace --features solana-slashing-program/test-sbf --offline --no-run > build.log 2>&1
status=$?
grep -v '^warning' build.log | tail -40
test=$(sed -n 's/.*Executable tests.demo.main.rs (\(.*\))/\1/p' build.log)
if [ $status = 0 ]; then
    timeout -k 5 40 "$test"
    status=$?
fi
cd /
# What was built above took the place of the repository's own build
rm -f "$repo/target/.vp-sources"
rm -rf /tmp/seeded-demo-program
exit $status
