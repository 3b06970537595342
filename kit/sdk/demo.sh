#!/bin/bash
# Builds the SDK's computations natively (the crate behind the browser bundle) and runs demo.rs on them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/ws/sdk/src" "$work/ws/demo/src"
rsync -rlpc --exclude target calc "$work/ws/" && rsync -rlpc --exclude target --exclude node_modules sdk/src/wasm "$work/ws/sdk/src/" || exit 3
cp Cargo.toml Cargo.lock "$work/ws/"
python3 - "$work/ws" <<'T' || exit 3
import re, sys
p = sys.argv[1] + "/Cargo.toml"
s = open(p).read()
s = s[s.index("[workspace]"):]
s = re.sub(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["calc/*", "calc/decimal/decimal_core"]\nexclude = ["sdk", "demo"]', s)
open(p, "w").write(s)
T
cp "$here/demo.rs" "$work/ws/demo/src/main.rs"
cp sdk/src/wasm/Cargo.lock "$work/ws/demo/Cargo.lock"
cat > "$work/ws/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
invariant-vara-wasm.path = "../sdk/src/wasm"
decimal = { path = "../calc/decimal", features = ["invariant-wasm"], default-features = false }
traceable_result.path = "../calc/traceable_result"
[profile.dev]
opt-level = 1
debug = 0
overflow-checks = false
debug-assertions = false
T
cd "$work/ws/demo" || exit 3
CARGO_TARGET_DIR=$work/target cargo build --offline >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 3; }
timeout 100 "$work/target/debug/demo"
