#!/bin/bash
# Builds the simulator from /repo's working tree and runs it: run.sh check PROPERTY | replay FILE ...
cd "$(dirname "$0")/sim" || exit 2
export SLASHSIM_ROOT="$(cd .. && pwd)"
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$SLASHSIM_ROOT/target"
unset RUSTFLAGS RUST_LOG
# Cargo goes by the age of files, which misses one that was restored with an old date.
stamp=$CARGO_TARGET_DIR/.repo-sources
sum=$(cd /repo && find Cargo.toml program clients -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    [ -e "$stamp" ] && cargo clean --release --offline --quiet -p solana-slashing-program -p spl-slashing -p solana-slashing-checked -p spl-slashing-checked -p client-checked 2>/dev/null
    mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" > "$stamp"
fi
if ! cargo build --release --offline --quiet 2>/dev/null; then
    cargo build --release --offline 2>&1 | tail -40
    echo "error: the simulator does not build against /repo"
    exit 2
fi
[ "$1" = build ] && exit 0
cd .. && exec "$CARGO_TARGET_DIR/release/slashsim" "$@"
