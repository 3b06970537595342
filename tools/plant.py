#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: author planted bugs.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].  Every bug is applied to a scratch copy of /repo;
the demonstration is run on the clean and on the patched copy, and the property's check on the patched copy; the results are printed and
seeded/<id>/ is written."""
import json, os, shutil, subprocess, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"


SDK = """#![allow(unused_imports, dead_code)]
use decimal::*;
use invariant_vara_wasm::*;
use invariant_vara_wasm::{liquidity::*, sqrt_price::*, token_amount::*};

fn check(what: &str, ok: bool) {
    println!("{}: {}", if ok { "ok" } else { "FAILED" }, what);
    if !ok {
        std::process::exit(1);
    }
}

"""


TS = """const { load, check, api } = require(process.argv[3]);
const { req, wasmCalls, TypeRegistry } = load(process.argv[2]);
const A = "0x" + "aa".repeat(32), B = "0x" + "bb".repeat(32), C = "0x" + "cc".repeat(32);
const le = (v, n) => Array.from({ length: n }, (_, i) => Number((BigInt.asUintN(n * 8, BigInt(v)) >> BigInt(8 * i)) & 255n));
const str = s => [s.length << 2, ...Buffer.from(s)], id = a => [...Buffer.from(a.slice(2), "hex")];
const hex = b => "0x" + Buffer.from(b).toString("hex");
process.on("unhandledRejection", e => { console.log(e); process.exit(2); });

"""


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    sh("rsync -a --exclude /target --exclude /target-sdk /repo/ %s/" % dst)


def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:]
    os.makedirs(SC, exist_ok=True)
    clean = SC + "/clean"
    copy(clean)
    for b in spec["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = R + "/seeded/" + b["id"]
        work = SC + "/w"
        copy(work)
        for f, old, new in b["edits"]:
            s = open(work + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], "edit does not apply (%d matches) in" % s.count(old), f)
                break
            open(work + "/" + f, "w").write(s.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            rc, patch = sh("git diff", work)
            open(d + "/patch.diff", "w").write(patch)
            if b.get("kit") == "sdk":
                shutil.copy(R + "/kit/sdk/demo.sh", d + "/demo.sh")
                open(d + "/demo.rs", "w").write(SDK + b["demo"].strip() + "\n")
            elif b.get("kit") == "ts":
                for x in ("demo.sh", "load.js"):
                    shutil.copy(R + "/kit/ts/" + x, d + "/" + x)
                open(d + "/demo.js", "w").write(TS + b["demo"].strip() + "\n")
            elif b.get("kit", True):
                for x in ("demo.sh", "chain.rs"):
                    shutil.copy(R + "/kit/files/" + x, d + "/" + x)
                if os.path.exists(d + "/sails-rs"):
                    shutil.rmtree(d + "/sails-rs")
                shutil.copytree(R + "/kit/files/sails-rs", d + "/sails-rs")
                open(d + "/demo.rs", "w").write("mod chain;\nuse chain::*;\n\n" + b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0, o0 = (0, "") if os.environ.get("NODEMO") else sh("bash %s/demo.sh" % d, clean)
            r1, o1 = (1, "") if os.environ.get("NODEMO") else sh("bash %s/demo.sh" % d, work)
            r2, o2 = sh("./check %s quick" % b["property"], R, {"VERIF_REPO": work})
            print("%s %s: demo clean=%d patched=%d, check=%s" % (b["id"], b["property"], r0, r1, "CAUGHT" if r2 == 1 and "VIOLATION" in o2 else "MISSED(%d)" % r2))
            if r0 != 0:
                print("   clean:", o0[-1500:])
            if r1 == 0 or "error" in o1:
                print("   patched:", o1[-1500:])
            print("   ", "\n    ".join(o2.strip().splitlines()[:3])[:900])
    shutil.rmtree(SC)


main()
