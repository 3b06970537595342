"""Interval abstract interpretation with trace partitioning, over the extracted terms.

A function of one bounded argument is evaluated on intervals of that argument ("boxes"). Every term gets the
interval of the values it can have on the box; a condition that the intervals do not decide splits the
analysis in two, each half with the interval narrowed by the outcome it assumes; a loop is iterated on the
intervals of the values it carries until its condition no longer holds. What comes out for a box is therefore
a superset of what the function can return anywhere on it, and a single value only if every argument of the
box gives that value.
"""
import multiprocessing

from .mathspec import *
from .trade import *
from eng import interp
from eng.norm import Rewriter
from eng.terms import _blo, _bhi, _bvar, _atoms

INF = float("inf")
FAR = 1 << 600  # beyond every number of the program
LIMIT = 400  # splits and iterations per box


class Split(Exception):
    def __init__(self, var):
        self.var = var


class Stuck(Exception):
    pass


class Boxes:
    """Interval evaluation of terms. `calls` gives meaning to opaque calls: name -> function(args' intervals) ->
    (variant, payload interval)."""

    def __init__(self, calls):
        self.calls, self.comp, self.bcomp = calls, {}, {}

    # ---- numbers
    def num(self, x):
        """closure E -> (lo, hi)"""
        c = self.comp.get(x.id)
        if c is None:
            raw, i = self._num(x), x.id

            def c(E):
                v = E.get(i)
                if v is None:
                    v = E[i] = raw(E)
                return v
            self.comp[i] = c
        return c

    def _num(self, x):
        op = x.op
        if op == "int":
            k = (x.args[0], x.args[0])
            return lambda E: k
        if op in ("sym", "phi"):
            lo, hi = t.rng(x)
            if not (lo > -INF and hi < INF):
                if op == "sym":
                    raise Stuck("a value without bounds: %s" % t.show(x, 3))
                lo, hi = -FAR, FAR
            k = (lo, hi)
            return lambda E: k
        if op == "poly":
            return self._poly(x)
        if op in ("div", "tdiv"):
            a, b = self.num(x.args[0]), self.num(x.args[1])
            trunc = op == "tdiv"

            def f(E):
                (l, h), (m, n) = a(E), b(E)
                if m <= 0:
                    raise Stuck("a division by what may be zero or negative")
                if trunc:
                    q = lambda u, v: u // v if u >= 0 else -(-u // v)
                else:
                    q = lambda u, v: u // v
                if m == n:
                    return q(l, m), q(h, m)
                c = (q(l, m), q(l, n), q(h, m), q(h, n))
                return min(c), max(c)
            return f
        if op == "wrap":
            ity, a = x.args[0], self.num(x.args[1])
            lo, hi, n = ity.lo, ity.hi, 1 << ity.bits

            def f(E):
                v = a(E)
                l, h = v
                if lo <= l and h <= hi:
                    return v
                k = (l - lo) // n
                if (h - lo) // n == k:
                    return l - k * n, h - k * n
                return lo, hi
            return f
        if op == "ite":
            c, a, b = self.cond(x.args[0]), self.num(x.args[1]), self.num(x.args[2])
            return lambda E: a(E) if c(E) else b(E)
        if op == "bit":
            k, its = x.args[0], [self.num(y) for y in x.args[1]]

            def f(E):
                vs = [y(E) for y in its]
                if all(l == h for l, h in vs):
                    r = vs[0][0]
                    for l, h in vs[1:]:
                        r = r | l if k == "or" else r & l if k == "and" else r ^ l
                    return r, r
                if any(l < 0 for l, h in vs):
                    raise Stuck("a bit operation on what may be negative")
                if k == "and":
                    return 0, min(h for l, h in vs)
                top = (1 << max(h for l, h in vs).bit_length()) - 1
                return (max(l for l, h in vs) if k == "or" else 0), top
            return f
        if op == "pow":
            a, b = self.num(x.args[0]), self.num(x.args[1])

            def f(E):
                (l, h), (m, n) = a(E), b(E)
                if l < 0 or m < 0 or n > 512:
                    raise Stuck("a power out of reach")
                return l ** m, h ** n
            return f
        if op == "fn" and x.args[0] == "shr":
            a, b = self.num(x.args[1]), self.num(x.args[2])

            def f(E):
                (l, h), (m, n) = a(E), b(E)
                if l < 0 or m < 0:
                    raise Stuck("a shift of what may be negative")
                return l >> n, h >> m
            return f
        if op == "proj":
            return self._payload(x, x, [])
        if op == "agg" and len(x.args) == 3 and x.args[1] == 0:
            return self.num(x.args[2])
        if op == "bool":
            c = self.cond(x.args[0])
            return lambda E: (1, 1) if c(E) else (0, 0)
        raise Stuck("not an arithmetic value: %s" % t.show(x, 3))

    def _payload(self, x, y, path):
        while y.op == "proj":
            path = [(y.args[1], y.args[2])] + path
            y = y.args[0]
        if y.op == "fn" and y.args[0].split("::")[-1] in self.calls:
            g = self.calls[y.args[0].split("::")[-1]]
            args = [self.num(z) for z in y.args[1:]]
            want = path[0][0]
            if any(p[1] != 0 for p in path):
                raise Stuck("an unexpected part of a call's value: %s" % t.show(x, 3))

            def f(E):
                variant, v = g(*[a(E) for a in args])
                if variant is None or (variant != want and want == 0) or v is None:
                    raise Stuck("the value of a call that may fail is used: %s" % t.show(x, 3))
                return v
            return f
        raise Stuck("not an arithmetic value: %s" % t.show(x, 3))

    def _poly(self, x):
        ms = []
        c0 = 0
        for m, c in x.args[0]:
            if m == ():
                c0 = c
            else:
                ms.append((c, [self.num(y) for y in m], len(set(m)) == 1 and len(m) == 2))
        if len(ms) == 1 and len(ms[0][1]) == 1:
            c, (a,), _ = ms[0]
            if c > 0:
                return lambda E: ((lambda v: (c0 + c * v[0], c0 + c * v[1]))(a(E)))
            return lambda E: ((lambda v: (c0 + c * v[1], c0 + c * v[0]))(a(E)))

        def f(E):
            lo = hi = c0
            for c, its, square in ms:
                l, h = its[0](E)
                if square:
                    l, h = (l * l, h * h) if l >= 0 else (h * h, l * l) if h <= 0 else (0, max(l * l, h * h))
                else:
                    for y in its[1:]:
                        m, n = y(E)
                        k = (l * m, l * n, h * m, h * n)
                        l, h = min(k), max(k)
                if c > 0:
                    lo += c * l
                    hi += c * h
                else:
                    lo += c * h
                    hi += c * l
            return lo, hi
        return f

    # ---- conditions
    def cond(self, f):
        """closure E -> bool; raises Split(var) when the intervals leave it open"""
        if f <= 1:
            return (lambda E: True) if f else (lambda E: False)
        c = self.bcomp.get(f)
        if c is None:
            def c(E):
                v = self.decide(f, E)
                if v is True or v is False:
                    return v
                raise Split(v)
            self.bcomp[f] = c
        return c

    def decide(self, f, E):
        """True, False, or the variable of an atom that decides it"""
        while f > 1:
            v = _bvar[f]
            k = ("atom", v)
            d = E.get(k)
            if d is None:
                d = E[k] = self.atom(v)(E)
            if d == 2:
                h, l = self.decide(_bhi[f], E), self.decide(_blo[f], E)
                if h is l and (h is True or h is False):
                    return h
                return v
            f = _bhi[f] if d else _blo[f]
        return f == 1

    def atom(self, v):
        k = ("a", v)
        c = self.comp.get(k)
        if c is None:
            c = self.comp[k] = self._atom(_atoms[v])
        return c

    def _atom(self, a):
        if a.op == "ge0":
            p = self.num(a.args[0])

            def f(E):
                l, h = p(E)
                return 1 if l >= 0 else 0 if h < 0 else 2
            return f
        if a.op == "is":
            y, want = a.args[0], a.args[1]
            if y.op == "fn" and y.args[0].split("::")[-1] in self.calls:
                g = self.calls[y.args[0].split("::")[-1]]
                args = [self.num(z) for z in y.args[1:]]

                def f(E):
                    variant, _ = g(*[b(E) for b in args])
                    return 2 if variant is None else int(variant == want)
                return f
        raise Stuck("a condition that is not arithmetic: %s" % t.show(a, 4))

    def assume(self, base, var, val):
        """the environment base with the atom decided; None if that is impossible"""
        E = dict(base)
        E[("atom", var)] = int(val)
        a = _atoms[var]
        if a.op == "ge0":
            d = t.to_poly(a.args[0])
            c0 = d.pop((), 0)
            if len(d) == 1:
                (m, c), = d.items()
                if len(m) == 1 and abs(c) == 1:
                    x = m[0]
                    E0 = dict(base)
                    lo, hi = self.num(x)(E0)
                    # c*x + c0 >= 0
                    if (c > 0) == val:
                        lo = max(lo, -c0 if c > 0 else c0 + 1)
                    else:
                        hi = min(hi, -c0 - 1 if c > 0 else c0)
                    if lo > hi:
                        return None
                    E[x.id] = (lo, hi)
        return E


class Function:
    """a function of the program, ready to be evaluated on boxes: its loops in order, its returned value"""

    def __init__(self, r, calls):
        self.r, self.B = r, Boxes(calls)
        self.loops = []
        for lid, li in r.I.loopinfo.items():
            if li["back"] is None:
                continue
            L = Loop(r, lid)
            for q, (e, b) in L.vals.items():
                if lid in e.deps:
                    raise Stuck("a loop feeding its own entry")
            self.loops.append(L)
        # a loop comes after the loops whose values it starts from
        done, todo = [], list(self.loops)
        while todo:
            ready = [L for L in todo if not any(M.lid in e.deps for M in todo if M is not L for e, b in L.vals.values())]
            if not ready:
                raise Stuck("loops that feed each other")
            done.append(ready[0])
            todo.remove(ready[0])
        self.loops = done
        for L in done:
            for M in done:
                if M is not L and any(M.lid in b.deps for e, b in L.vals.values()) and any(L.lid in b.deps for e, b in M.vals.values()):
                    raise Stuck("nested loops")

    def run(self, env):
        """what the function can do on the box: list of (environment at the return)"""
        out = []
        B = self.B
        work = [(0, None, env)]
        steps = 0
        while work:
            n, inside, base = work.pop()
            steps += 1
            if steps > LIMIT * 20:
                raise Stuck("the analysis of one box does not end")
            E = dict(base)
            try:
                if n == len(self.loops):
                    if not B.cond(self.r.exit.st.pc)(E):
                        out.append((base, None))
                        continue
                    out.append((base, self.leaf(self.r.exit.rawret, E)))
                    continue
                L = self.loops[n]
                if inside is None:
                    if not B.cond(L.entry.st.pc)(E):
                        work.append((n + 1, None, base))
                        continue
                    nxt = dict(base)
                    for q, (e, b) in L.vals.items():
                        nxt[q.id] = B.num(e)(E)
                    work.append((n, 0, nxt))
                    continue
                if inside > LIMIT:
                    raise Stuck("a loop does not end")
                if not B.cond(L.back.st.pc)(E):
                    work.append((n + 1, None, base))
                    continue
                new = {q.id: B.num(b)(E) for q, (e, b) in L.vals.items()}
                nxt = {k: v for k, v in base.items() if not self.varies(k, L)}
                nxt.update(new)
                work.append((n, inside + 1, nxt))
            except Split as s:
                for val in (True, False):
                    E2 = B.assume(base, s.var, val)
                    if E2 is not None:
                        work.append((n, inside, E2))
        return out

    def varies(self, k, L):
        """does the entry of the environment depend on what the loop changes"""
        c = self.B.comp.setdefault(("varies", L.lid), {})
        if k not in c:
            x = _atoms[k[1]] if isinstance(k, tuple) else t._all[k]
            c[k] = L.lid in x.deps
        return c[k]

    def leaf(self, x, E):
        """(variant, payload interval) of a Result"""
        while x.op == "ite":
            x = x.args[1] if self.B.cond(x.args[0])(E) else x.args[2]
        if x.op != "agg":
            raise Stuck("not a result: %s" % t.show(x, 3))
        if x.args[1] != 0:
            return 1, None
        return 0, self.B.num(x.args[2])(E)


# ---------------------------------------------------------------- the tick of a price
def tick_prices():
    """the price of every tick, lowest first"""
    table, out = factor_table(), []
    up = []
    for n in range(MAX_TICK + 1):
        acc = 10 ** 12
        for k in range(18):
            if n >> k & 1:
                acc = acc * table[k] // 10 ** 12
        up.append(acc)
    for n in range(MAX_TICK, 0, -1):
        out.append(10 ** 24 // up[n] * 10 ** 12)
    return out + [a * 10 ** 12 for a in up]


_state = {}
SPACINGS = range(1, 101)
UNIT = 10 ** 24
GROUP = 256  # boxes evaluated with what is already decided on all of them together


def _from_tick(price):
    def f(v):
        lo, hi = v
        if -MAX_TICK <= lo and hi <= MAX_TICK:
            return 0, (price[lo + MAX_TICK], price[hi + MAX_TICK])
        if lo > MAX_TICK or hi < -MAX_TICK:
            return 1, None
        return None, None
    return f


def _common(F, arg, a, b, extra):
    """what is already known on the whole interval"""
    E = {arg: (a, b)}
    todo = [F.B.num(e) for L in F.loops for e, _ in L.vals.values()] + [F.B.num(x) for x in extra]
    for g in todo:
        try:
            g(E)
        except (Split, Stuck):
            pass
    return {k: v for k, v in E.items() if k != arg and (v in (0, 1) if isinstance(k, tuple) else v[0] == v[1])
            and not (_atoms[k[1]] if isinstance(k, tuple) else t._all[k]).deps}


def _boxes(part):
    F, price, arg, cut = (_state[k] for k in ("F", "price", "arg", "cut"))
    bad, seen, hull = [], 0, None
    for g in range(part[0], part[1], GROUP):
        last = min(g + GROUP, part[1])
        common = _common(F, arg, price[g], price[last] - 1 if last < len(price) else price[-1], [])
        for n in range(g, last):
            a, b = price[n], price[n + 1] - 1 if n + 1 < len(price) else price[n]
            env = dict(common)
            env[arg] = (a, b)
            tick = n - MAX_TICK
            try:
                for base, res in F.run(env):
                    seen += 1
                    if res is None:
                        bad.append((tick, a, b, "the computation ends in a panic"))
                    elif res[0] != 0:
                        bad.append((tick, a, b, "no tick is returned"))
                    elif res[1] != (tick, tick):
                        bad.append((tick, a, b, "the tick returned is %s" % (res[1][0] if res[1][0] == res[1][1] else "anywhere in %d..%d" % res[1])))
                    v = cut(dict(base)) if cut else None
                    if v is not None:
                        hull = v if hull is None else (min(hull[0], v[0]), max(hull[1], v[1]))
            except (Stuck, Split) as s:
                bad.append((tick, a, b, str(s)))
            if len(bad) > 3:
                return part, bad, seen, hull
    return part, bad, seen, hull


def _below(x, cut=None):
    """every subterm, not looking below cut"""
    seen, st = {}, [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, t.T) and y not in seen and y is not cut:
            seen[y] = 1
            st.extend(y.args)
            if y.op in ("ite", "bool"):
                st.extend(t.batoms(y.args[0]))
    return seen


def _bottleneck(x, avoid):
    """the largest term through which everything the loops contribute to x passes, free of `avoid`"""
    for y in sorted(_below(x), key=lambda y: -y.id):
        if y.deps and y.op in ("ite", "phi", "wrap", "div", "poly", "bit", "fn", "pow") and not any(z.op == "phi" for z in _below(x, y)):
            if not any(avoid(z) for z in _below(y)):
                return y
    return None


def _run(P, f, spacing, unroll=0):
    keep = interp.Interp.MAXUNROLL, interp.Interp.MAXCONST
    interp.Interp.MAXUNROLL = interp.Interp.MAXCONST = unroll
    try:
        at = [P.tyname[f["locals"][i + 1]] for i in range(f["argc"])]
        args = [spacing if ty in t.INT_TYPES else generic(P, ty, "p%d" % i).t for i, ty in enumerate(at)]
        return spec.Run(P, f, args=args, opaque=lambda fi: fi["item"] == "from_tick")
    finally:
        interp.Interp.MAXUNROLL, interp.Interp.MAXCONST = keep


def _price_arg(r):
    a = [a for a in r.args if a.t.op == "agg"]
    if len(a) != 1:
        raise AnalysisError("get_tick_at_sqrt_price: no single price among the arguments")
    return a[0].n


class Rename:
    """a plain substitution of leaves"""

    def __init__(self, leaf):
        self.leaf, self.memo, self.bm = leaf, {}, {}

    def b(self, f):
        r = self.bm.get(f)
        if r is None:
            r = self.bm[f] = t.bmap(f, self.atom) if f > 1 else f
        return r

    def atom(self, a):
        if a.op == "ge0":
            return t.ge0(self(a.args[0]))
        if a.op == "is":
            return t.is_variant(self(a.args[0]), *a.args[1:])
        return t.bvar(t.mk(a.op, [self(x) if isinstance(x, t.T) else x for x in a.args], a.ty))

    def __call__(self, x):
        if x in self.leaf:
            return self.leaf[x]
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.go(x)
        return r

    def go(self, x):
        op, a = x.op, x.args
        if op in ("int", "sym", "text", "phi"):
            return x
        if op == "fn":
            # a function of the same name in the other crate
            name = a[0].split("::")[-1]
            return t.fn(name if name == "from_tick" else a[0], [self(y) if isinstance(y, t.T) else y for y in a[1:]])
        if op == "poly":
            acc = iconst(0)
            for m, c in a[0]:
                e = iconst(c)
                for y in m:
                    e = t.mul(e, self(y))
                acc = t.add(acc, e)
            return acc
        if op == "ite":
            return ite(self.b(a[0]), self(a[1]), self(a[2]))
        if op == "bool":
            return t.boolt(self.b(a[0]))
        if op == "div":
            return t.div(self(a[0]), self(a[1]))
        if op == "tdiv":
            return t.tdiv(self(a[0]), self(a[1]))
        if op == "wrap":
            return t.wrap(a[0], self(a[1]))
        if op == "agg":
            return t.agg(a[0], a[1], [self(y) for y in a[2:]], x.ty)
        if op == "proj":
            return t.proj(self(a[0]), a[1], a[2], x.ty)
        return t.mk(op, [self(y) if isinstance(y, t.T) else tuple(self(z) if isinstance(z, t.T) else z for z in y) if isinstance(y, tuple) else y for y in a], x.ty)


def _same_code(r, q):
    """do two runs return the same value of their arguments, loops included"""
    a, b = list(r.I.loopinfo), list(q.I.loopinfo)
    if len(a) != len(b):
        return False
    leaf, pairs = {}, []
    for la, lb in zip(a, b):
        A, B = r.I.loopinfo[la], q.I.loopinfo[lb]
        va, vb = loop_values(A, la), loop_values(B, lb)
        if len(va) != len(vb) or (A["back"] is None) != (B["back"] is None):
            return False
        for (pa, x), (pb, y) in zip(va.items(), vb.items()):
            if pa.ty != pb.ty:
                return False
            leaf[pb] = pa
            pairs += list(zip(x, y))
        pairs.append((t.boolt(A["entry"].pc), t.boolt(B["entry"].pc)))
        if A["back"] is not None:
            pairs.append((t.boolt(A["back"].pc), t.boolt(B["back"].pc)))
    W, K = Rename(leaf), Rename({})
    pairs += [(t.boolt(r.exit.st.pc), t.boolt(q.exit.st.pc)), (r.exit.rawret, q.exit.rawret)]
    return all(_eqres(K(x), W(y)) for x, y in pairs)


def _eqres(x, y):
    """equal terms, error reasons aside"""
    if x is y:
        return True
    if x.op == "ite" and y.op == "ite":
        return x.args[0] == y.args[0] and _eqres(x.args[1], y.args[1]) and _eqres(x.args[2], y.args[2])
    if x.op == "agg" and y.op == "agg" and x.args[1] == y.args[1] and len(x.args) == len(y.args):
        return "Error" in str(x.ty) and x.args[1] == 1 or all(_eqres(a, b) for a, b in zip(x.args[2:], y.args[2:]) if isinstance(a, t.T))
    return False


def m_tick_of_price(ctx):
    price = tick_prices()
    runs, s = [], ranged("s", 1, SPACINGS[-1])
    for crate, P in (("invariant", ctx.P), ("invariant_vara_wasm", ctx.W)):
        f = fn_of(P, "get_tick_at_sqrt_price", crate)
        r = _run(P, f, s)
        ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
        runs.append(("the exchange" if crate == "invariant" else "the SDK", P, f, r))
    twins = _same_code(runs[0][3], runs[1][3])
    for who, P, f, r in runs:
        w, p0 = f["key"], _price_arg(r)
        outside = bor(gt(price[0], p0), gt(p0, price[-1]))
        ctx.ob("%s: a price outside the supported range has no tick" % who, band(r.exit.st.pc, t.is_variant(r.exit.rawret, 0, 2), outside) == FALSE, "a price outside the supported range is given a tick", w)
        if who == "the SDK" and twins:
            ctx.ob("%s: the same computation as in the exchange" % who, True, "", w)
            continue
        hull = on_every_tick(ctx, who, P, f, w, price)
        if hull is not None:
            on_every_spacing(ctx, who, P, f, w, price, r, s, p0, hull)


def on_every_tick(ctx, who, P, f, w, price):
    """spacing 1: on the prices of every tick the function returns that tick"""
    r = _run(P, f, iconst(1))
    try:
        F = Function(r, {"from_tick": _from_tick(price)})
        x = _bottleneck(r.exit.rawret, lambda z: z.op == "fn" and str(z.args[0]).endswith("from_tick"))
        cut = F.B.num(x) if x is not None else None
        _state.update(F=F, price=price, arg=_price_arg(r).id, cut=cut)
        parts = [(i, min(i + 4096, len(price))) for i in range(0, len(price), 4096)]
        with multiprocessing.get_context("fork").Pool(min(8, multiprocessing.cpu_count())) as pool:
            res = pool.map(_boxes, parts, chunksize=1)
    except Stuck as e:
        ctx.ob("%s: the tick of every price" % who, False, "cannot be evaluated on intervals of prices: %s" % e, w)
        return None
    hull = None
    for part, bad, seen, h in res:
        if h is not None:
            hull = h if hull is None else (min(h[0], hull[0]), max(h[1], hull[1]))
        ctx.ob("%s: the tick of every price from tick %d to %d" % (who, part[0] - MAX_TICK, part[1] - 1 - MAX_TICK), not bad,
               lambda: "; ".join("prices %d..%d belong to tick %d, but %s" % (b[1], b[2], b[0], b[3]) for b in bad[:3]), w)
    return None if any(bad for _, bad, _, _ in res) else hull or (0, 0)


def on_every_spacing(ctx, who, P, f, w, price, r, s, p0, hull):
    """spacing k: the tick returned is the largest multiple of k that is not above the tick for spacing 1"""
    R = r.exit.rawret
    fromtick = lambda z: z.op == "fn" and str(z.args[0]).endswith("from_tick")
    x = _bottleneck(R, lambda z: z is s or fromtick(z))
    if x is None:
        ctx.ob("%s: every spacing" % who, False, "the spacing is mixed into the computation of the logarithm", w)
        return
    D = ranged("D", *hull)
    R = Rewriter(leaf={x: D}, interp=r.I)(R, TRUE)
    inside = band(ge(p0, price[0]), ge(price[-1], p0))
    for side, c in (("1 and above", ge(p0, UNIT)), ("below 1", gt(UNIT, p0))):
        c = band(inside, c)
        for how in (Rewriter, Side):
            one = V(P, how(leaf={s: iconst(1)}, interp=r.I)(R, TRUE if how is Rewriter else c), r.rty)
            b = cofactor(one.var(0).n, band(one.ok(), c), {})
            ds = [y for y in _below(b) if y.op == "div" and y.args[1].op == "int" and set(t.to_poly(y.args[0])) <= {(D,), ()}]
            direct = not ds and D in _below(b)
            if direct or len(ds) == 1 and t.to_poly(ds[0].args[0]).get((D,)) == 1:
                break
        else:
            ctx.ob("%s: every spacing, prices of %s" % (who, side), False, "the tick is not a quotient of the logarithm: %s" % t.show(b, 6)[:300], w)
            continue
        d, off = (1, 0) if direct else (ds[0].args[1].args[0], t.to_poly(ds[0].args[0]).get((), 0))
        _state.update(sp=(P, r, R, s, D, d, off, hull, c))
        with multiprocessing.get_context("fork").Pool(min(8, multiprocessing.cpu_count())) as pool:
            bad = sum(pool.map(_spacing, SPACINGS, chunksize=3), [])
        ctx.ob("%s: every spacing, prices of %s" % (who, side), not bad, lambda: "; ".join(bad[:3]), w)


class Side(Rewriter):
    """simplifies under one fixed condition: equal subterms come out equal, wherever they stand"""
    def _go(self, x, pc):
        if x.op == "ite":
            c = self.b(x.args[0], pc)
            if c == TRUE:
                return self(x.args[1], pc)
            if c == FALSE:
                return self(x.args[2], pc)
            return ite(c, self(x.args[1], pc), self(x.args[2], pc))
        return Rewriter._go(self, x, pc)


def _spacing(k):
    P, r, R, s, D, d, off, hull, c = _state["sp"]
    # the quotient is k * Q + M, what is left of the division J
    Q, J = ranged("Q", 0, (hull[1] + off) // (d * k)), ranged("J", 0, d - 1) if d > 1 else iconst(0)
    bad = _remainder(Rewriter, k, Q, ranged("M", 0, k - 1) if k > 1 else iconst(0), J)
    if not bad:
        return []
    for m in range(k):
        bad = _remainder(Side, k, Q, iconst(m), J)
        if bad:
            return bad
    return []


def _remainder(how, k, Q, M, J):
    P, r, R, s, D, d, off, hull, c = _state["sp"]
    sub = {D: t.sub(t.add(t.mul(iconst(d), t.add(t.mul(iconst(k), Q), M)), J), iconst(off))}
    vk, v1 = (V(P, how(leaf={**sub, s: iconst(n)}, interp=r.I)(R, TRUE if how is Rewriter else c), r.rty) for n in (k, 1))
    ok = band(c, v1.ok())
    a, b = (cofactor(v.var(0).n, ok, {}) for v in (vk, v1))
    for what, goal in (("is refused", vk.ok()), ("is above the price", ge(b, a)), ("is more than one spacing below", gt(t.add(a, iconst(k)), b)),
                       ("is no multiple of the spacing", iseq(t.sub(a, t.mul(iconst(k), t.div(a, iconst(k)))), 0))):
        try:
            good = equiv(ite(goal, iconst(1), iconst(0)), iconst(1), ok, r.R, [6000])
        except TooHard:
            good = False
        if not good:
            return ["spacing %d: the tick %s" % (k, what)]
    return []
