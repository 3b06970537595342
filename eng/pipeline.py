"""From /repo's working tree to the monomorphic MIR dump the analyses read."""
import hashlib, os, shutil, subprocess, sys, time, fcntl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))
SKIP_DIRS = {"target", "target-sdk", ".git", "node_modules"}
SRC_EXT = (".rs", ".toml", ".lock", ".idl")


class BuildError(Exception):
    pass


def files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            if f.endswith(SRC_EXT) or f == "rust-toolchain":
                out.append(os.path.join(d, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            h.update(open(p, "rb").read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:20]


def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def driver():
    src = os.path.join(HERE, "driver/main.rs")
    d = os.path.join(CACHE, "driver-" + digest([src]))
    exe = os.path.join(d, "vdrv")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
        rc, out = sh(["rustc", "+nightly", "-O", src, "-o", exe + ".tmp", "-C", "link-args=-Wl,-rpath,%s/lib" % sysroot.strip()])
        if rc:
            raise BuildError("driver does not build:\n" + out[-3000:])
        os.replace(exe + ".tmp", exe)
    return exe


def dump():
    """returns (path of contract dump, path of wasm dump, info)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump()


def _dump():
    srcs = files(REPO)
    key = digest(srcs + files(os.path.join(HERE, "mirror")) + [os.path.join(HERE, "driver/main.rs"), os.path.join(HERE, "mirror/mk.py"), os.path.abspath(__file__)])
    out = os.path.join(CACHE, "dump-" + key)
    done = os.path.join(out, "done")
    info = {"sources": len([s for s in srcs if s.endswith(".rs")]), "tree": key, "repo": REPO}
    if os.path.exists(done):
        return os.path.join(out, "invariant.json"), os.path.join(out, "invariant_vara_wasm.json"), info
    exe = driver()
    ws = os.path.join(CACHE, "ws")
    env = dict(os.environ, VERIF_REPO=REPO)
    rc, o = sh([sys.executable, os.path.join(HERE, "mirror/mk.py"), ws], env=env)
    if rc:
        raise BuildError("mirror failed:\n" + o[-2000:])
    for old in os.listdir(CACHE):
        if old.startswith("dump-"):
            p = os.path.join(CACHE, old)
            if time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, rustc = sh(["rustup", "which", "--toolchain", "nightly", "rustc"])
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            env.pop(k)
    env.update(
        CARGO_NET_OFFLINE="true", RUSTC=rustc.strip(),
        RUSTFLAGS='-Zallow-features=min_specialization,proc_macro_diagnostic,proc_macro_span --cfg curve25519_dalek_backend="serial" '
                  '-Zalways-encode-mir -Zmir-opt-level=0',
        CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_INCREMENTAL="0", RUSTC_WORKSPACE_WRAPPER=exe, VDRV_OUT=out, VDRV_CRATES="invariant,invariant_vara_wasm",
        VDRV_LOCAL="decimal,math,traceable_result,contracts,io,invariant", VDRV_STOP="core::fmt,core::panicking,core::str")
    for sub, probe, tgt in (("", "src/lib.rs", "wst"), ("sdk/src/wasm", "lib.rs", "wst2")):
        d = os.path.join(ws, sub)
        try:
            os.utime(os.path.join(d, probe))
        except OSError:
            raise BuildError("missing crate root %s/%s" % (sub, probe))
        env["CARGO_TARGET_DIR"] = os.path.join(CACHE, tgt)
        rc, o = sh(["cargo", "+1.81", "check", "--offline"], env=env, cwd=d)
        if rc:
            raise BuildError("the tree does not compile for analysis:\n" + o[-4000:])
    for c in ("invariant", "invariant_vara_wasm"):
        if not os.path.exists(os.path.join(out, c + ".json")):
            raise BuildError("no dump for crate " + c)
    open(done, "w").close()
    return os.path.join(out, "invariant.json"), os.path.join(out, "invariant_vara_wasm.json"), info
