#!/bin/bash
# usage: run.sh MAIN.rs   -- builds a scratch crate against the iris-mpc in the current directory and runs it
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
main=$1; repo=$PWD
. /opt/vp/env.sh 2>/dev/null || true
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/lib.rs" "$d/src/tamper.rs"; cp "$main" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
iris-mpc = { path = "$repo/iris-mpc" }
plain-reference = { path = "$repo/plain-reference" }
mpc-net = { path = "$repo/mpc-net" }
bytes = "1"
rand = "0.8"
rand_chacha = "0.3"
${EXTRA_DEPS:-}
tokio = { version = "1", features = ["full"] }
T
cd "$d" && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log"; echo "demo does not build"; exit 3; }
timeout 120 "$d/target/debug/demo"
