#!/usr/bin/env python3
"""refactor.py SPEC.py [ids...]: edits that keep the behaviour, on which every check has to stay quiet.

SPEC.py defines EDITS = [dict(id, edits=[(file, old, new)])].  Each is applied to a scratch copy of /repo and all checks are run on it."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SC", "/tmp/refac")
N = int(os.environ.get("JOBS", "3"))
import queue
slots = queue.Queue()


def PIDS(b):
    """the checks to run on b (empty: all)"""
    return os.environ.get("PIDS") or b.get("pids", "")


def go(b):
    k = slots.get()
    try:
        w = "%s/w%d" % (SC, k)
        subprocess.run("rsync -a --delete --exclude /target --exclude /target-sdk /repo/ %s/" % w, shell=True, check=True)
        for f, old, new, *every in b["edits"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1 and not every:
                return b["id"], "edit does not apply (%d matches) in %s: %s" % (s.count(old), f, old[:60])
            open(w + "/" + f, "w").write(s.replace(old, new))
        env = {**os.environ, "VERIF_REPO": w, "VERIF_CACHE": "%s/c%d" % (SC, k), "VERIF_EVIDENCE": "%s/e%d" % (SC, k)}
        p = subprocess.run("ulimit -v 24000000; " + (" ; ".join("./check %s quick || R=1" % i for i in PIDS(b).split()) + "; exit ${R:-0}" if PIDS(b) else "./check %s quick" % os.environ.get("ALL", "all")), shell=True, cwd=R, env=env, capture_output=True, text=True)
        o = p.stdout + p.stderr
        open("%s/%s.out" % (SC, b["id"]), "w").write(o)
        bad = [l for l in o.split("\n") if l.startswith("VIOLATION") or "panicked" in l or "error[" in l or "Error" in l]
        return b["id"], "quiet" if p.returncode == 0 and not bad else "rc=%d %s" % (p.returncode, " | ".join(x[:120] for x in bad[:12]))
    finally:
        slots.put(k)


def main():
    os.makedirs(SC, exist_ok=True)
    for i in range(N):
        slots.put(i)
    ids = sys.argv[2:]
    es = [b for b in runpy.run_path(sys.argv[1])["EDITS"] if not ids or b["id"] in ids]
    with ThreadPoolExecutor(N) as ex:
        for i, o in ex.map(go, es):
            print(i, o, flush=True)


main()
