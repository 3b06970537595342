#!/usr/bin/env python3
"""mutate.py SEED COUNT [file-regex]: small random changes of the sources, each judged by all checks (E08 only where the tick of a price is computed).
A change that no check reports is printed for review: it either keeps the behaviour or shows a gap."""
import os, queue, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SC", "/tmp/mut")
N = int(os.environ.get("JOBS", "2"))
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "),
       (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\+=", "-="), (r"-=", "+="), (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"checked_add", "wrapping_add"),
       (r"unchecked_add", "unchecked_sub"), (r"unchecked_sub", "unchecked_add"), (r"big_mul_up", "big_mul"), (r"big_mul\b", "big_mul_up"),
       (r"big_div_up", "big_div"), (r"big_div\b", "big_div_up"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bup\b", "!up"),
       (r"_x\b", "_y"), (r"_y\b", "_x"), (r"\blower", "upper"), (r"\bupper", "lower"), (r"amount_in\b", "amount_out"), (r"amount_out\b", "amount_in"),
       (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"\b(\d+)\b", "+1"), (r"!(?=[a-z(])", ""), (r"\bif (?=[a-z])", "if !"), (r"\.is_zero\(\)", ".is_zero() == false"),
       (r"<<", ">>"), (r">>", "<<"), (r"\bsome\b", "none"), (r"is_some", "is_none"), (r"is_err", "is_ok"), (r"\?;", ".ok();"), (r"^(\s+)([a-z][^;]*;)$", "DELETE"),
       (r"\bamount\b", "amount + amount"), (r"x_to_y", "!x_to_y"), (r"token_x", "token_y"), (r"token_y", "token_x"), (r"caller", "admin")]


def mutants(path, src):
    cut = re.search(r"#\[cfg\(test\)\]", src)
    lines = src[:cut.start()].split("\n") if cut else src.split("\n")
    out = []
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "use ", "pub use", "#[", "#!", "pub mod", "mod ", "extern", "pub fn", "fn ", "impl", "pub struct", "where", "type ")) or "err!(" in t or "panic!" in t:
            continue
        for pat, new in OPS:
            for m in re.finditer(pat, l):
                if new == "DELETE":
                    if t.startswith(("let", "return", "pub ", "const", "break", "continue")):
                        continue
                    n = m.group(1)
                elif new == "+1":
                    n = l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
                else:
                    n = l[:m.start()] + new + l[m.end():]
                if n != l:
                    out.append((path, i, l, n))
    return out


slots = queue.Queue()


def go(job):
    k, (path, i, l, n) = job
    s = slots.get()
    try:
        w = "%s/w%d" % (SC, s)
        subprocess.run("rsync -a --delete --exclude /target --exclude /target-sdk /repo/ %s/" % w, shell=True, check=True)
        src = open(w + "/" + path).read().split("\n")
        assert src[i] == l
        src[i] = n
        open(w + "/" + path, "w").write("\n".join(src))
        env = {**os.environ, "VERIF_REPO": w, "VERIF_CACHE": "%s/c%d" % (SC, s), "VERIF_EVIDENCE": "%s/e%d" % (SC, s), "VERIF_STOP": "1"}
        what = "all" if path.endswith("log.rs") else "all-E08"
        try:
            p = subprocess.run("ulimit -v 24000000; timeout 1500 ./check %s quick" % what, shell=True, cwd=R, env=env, capture_output=True, text=True)
        except Exception as e:
            return k, "ERROR %s" % e
        o = p.stdout + p.stderr
        open("%s/m%d.out" % (SC, k), "w").write("%s:%d\n- %s\n+ %s\n%s" % (path, i + 1, l, n, o))
        v = [x for x in o.split("\n") if x.startswith("VIOLATION")]
        if "obligation build" in o:
            return k, "no build"
        r = ("caught " + v[0].split()[1]) if v else "MISSED rc=%d" % p.returncode
        return k, "%s %s:%d | %s | %s" % (r, path, i + 1, l.strip()[:90], n.strip()[:90])
    finally:
        slots.put(s)


def main():
    os.makedirs(SC, exist_ok=True)
    for i in range(N):
        slots.put(i)
    rnd = random.Random(int(sys.argv[1]))
    pat = sys.argv[3] if len(sys.argv) > 3 else r"^(src/(?!wasm)|calc/math/|sdk/src/wasm/(?!wasm_wrapper)|calc/decimal/decimal_core)"
    fs = [f for f in subprocess.run("git ls-files", shell=True, cwd="/repo", capture_output=True, text=True).stdout.split() if re.search(pat, f) and f.endswith(".rs")
          and not re.search(r"test|extended-vft|build.rs|liquidity_result|seconds_per_liquidity|uint_casts", f)]
    per = {f: mutants(f, open("/repo/" + f).read()) for f in fs}
    per = {f: m for f, m in per.items() if m}
    # a file's weight grows with the root of its size, so that small files are looked at, too
    ws = [len(m) ** .5 for m in per.values()]
    jobs = []
    while len(jobs) < int(sys.argv[2]):
        f = rnd.choices(list(per), ws)[0]
        m = rnd.choice(per[f])
        if m not in jobs:
            jobs.append(m)
    with ThreadPoolExecutor(N) as ex:
        for k, o in ex.map(go, enumerate(jobs)):
            print(k, o, flush=True)


main()
