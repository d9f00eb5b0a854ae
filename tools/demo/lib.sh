#!/bin/bash
# Usage: cwd = the repository. Builds main.rs (beside this script) against the crates of
# the repository in a scratch directory and runs it there.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/d/src" "$t/w"
cp "$here/main.rs" "$t/d/src/main.rs"
cp "$repo/Cargo.lock" "$t/d/Cargo.lock" 2>/dev/null
cat > "$t/d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
serde_json = "1"
DEPS
END
(cd "$t/d" && cargo build --offline -q --target-dir "$t/target") || { echo "demo does not build"; exit 2; }
demo=$t/target/debug/demo
cd "$t/w" || exit 2
