#!/bin/bash
# Builds the contract natively against stand-ins for the chain's system calls and runs demo.rs on it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
ws=$work/ws
mkdir -p "$ws"
rsync -rlpc --exclude /target --exclude /target-sdk --exclude .git --exclude node_modules --exclude /extended-vft --exclude /Cargo.toml \
  --exclude /rust-toolchain.toml --exclude /xtask --exclude /src/wasm --exclude /build.rs --exclude /sdk ./ "$ws/" || exit 3
cp -r "$here/sails-rs" "$ws/sails-rs"
mkdir -p "$ws/demo/src"
cp "$here/chain.rs" "$ws/demo/src/chain.rs"
cp "$here/demo.rs" "$ws/demo/src/main.rs"
cat > "$ws/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
invariant.path = ".."
math.workspace = true
decimal.workspace = true
io.workspace = true
contracts.workspace = true
traceable_result.workspace = true
sails-rs.workspace = true
gstd.workspace = true
T
python3 - "$PWD" "$ws" <<'T' || exit 3
import re, sys
src, ws = sys.argv[1:]
s = open(src + "/Cargo.toml").read()
for sec in ("build-dependencies", "dev-dependencies"):
    s = re.sub(r"(?ms)^\[%s\]\n.*?(?=^\[|\Z)" % sec, "", s)
s = re.sub(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["calc/*", "calc/decimal/decimal_core", "io", "src/contracts", "demo"]\nexclude = ["sdk"]', s)
s = re.sub(r"(?m)^wasm-opt\s*=.*$", "wasm-opt = []", s)
s = re.sub(r"(?m)^vft-service\s*=.*$|^extended-vft\.path\s*=.*$", "", s)
s += '\n[patch.crates-io]\nsails-rs = { path = "sails-rs" }\n[profile.dev]\nopt-level = 1\ndebug = 0\noverflow-checks = false\ndebug-assertions = false\n'
open(ws + "/Cargo.toml", "w").write(s)
p = ws + "/src/lib.rs"
s = open(p).read()
open(p, "w").write(s + "\n#[doc(hidden)]\npub mod demo_api {\n    pub use crate::invariant_service::*;\n    pub use crate::invariant_storage::*;\n}\n")
p = ws + "/src/invariant_service.rs"
s = open(p).read()
open(p, "w").write(s + """
#[doc(hidden)]
pub fn demo_listen<T>(s: &InvariantService<T>, f: impl FnMut(&InvariantEvent) + 'static) {
    let b: Box<dyn FnMut(&InvariantEvent)> = Box::new(f);
    event_listeners().lock().insert(s as *const _ as usize, Box::into_raw(Box::new(b)) as usize);
}
""")
T
cd "$ws" || exit 3
RUSTFLAGS="-Clink-arg=-Wl,--allow-multiple-definition" CARGO_TARGET_DIR=$work/target cargo build -p demo --offline >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 3; }
timeout 100 "$work/target/debug/demo"
