#!/usr/bin/env python3
"""Mirror /repo's Rust sources into a private workspace that the analysis driver can compile.

usage: mk.py DEST   (DEST is created/refreshed; unchanged files keep their mtime)
"""
import os, re, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def drop_section(s, name):
    return re.sub(r"(?ms)^\[%s\]\n.*?(?=^\[|\Z)" % re.escape(name), "", s)


def main(dest):
    os.makedirs(dest, exist_ok=True)
    subprocess.run(
        ["rsync", "-rlpc", "--delete",
         "--exclude", "/target", "--exclude", "/target-sdk", "--exclude", "/.git", "--exclude", "node_modules",
         "--exclude", "/extended-vft", "--exclude", "/Cargo.toml", "--exclude", "/Cargo.lock",
         "--exclude", "/sails-rs", "--exclude", "/rust-toolchain.toml", "--exclude", "/xtask",
         "--exclude", "/src/wasm", "--exclude", "/build.rs", "--exclude", "rust-toolchain",
         "--exclude", "/.cargo", "--exclude", ".binpath", "--exclude", "/.lock.orig", "--exclude", "/sdk/src/wasm/target",
         REPO + "/", dest + "/"], check=True)
    subprocess.run(["rsync", "-rlpc", "--delete", HERE + "/sails-rs/", dest + "/sails-rs/"], check=True)
    s = open(REPO + "/Cargo.toml").read()
    s = drop_section(drop_section(s, "build-dependencies"), "dev-dependencies")
    s = re.sub(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["calc/*", "calc/decimal/decimal_core", "io", "src/contracts"]\nexclude = ["sdk"]', s)
    s = re.sub(r'(?m)^wasm-opt\s*=.*$', "wasm-opt = []", s)
    s = re.sub(r'(?m)^vft-service\s*=.*$', "", s)
    s = re.sub(r'(?m)^extended-vft\.path\s*=.*$', "", s)
    s += '\n[patch.crates-io]\nsails-rs = { path = "sails-rs" }\n'
    write_if_changed(dest + "/Cargo.toml", s)
    lock = open(REPO + "/Cargo.lock").read()
    orig = dest + "/.lock.orig"
    if not os.path.exists(orig) or open(orig).read() != lock or not os.path.exists(dest + "/Cargo.lock"):
        write_if_changed(dest + "/Cargo.lock", lock)
        write_if_changed(orig, lock)


if __name__ == "__main__":
    main(sys.argv[1])
