#!/bin/bash
# exit 0: the property held in this scenario; non-zero: it did not
d="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-06-20
export RUSTC=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin/rustc
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS SPDM_CONFIG RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER CARGO_TARGET_DIR
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$d/src" "$d/Cargo.lock" "$t/" || exit 3
sed "s#@REPO@#$repo#g" "$d/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" || exit 3
cargo build --offline --locked --no-default-features --features "@FEATURES@" > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 120 ./target/debug/spdm-pbt
