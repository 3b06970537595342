"""Normalisation of terms under a path predicate, substitution, and semantic equality by case splitting on
the gating conditions that occur in the terms (a finite set; no path of the program is enumerated)."""
from . import terms as t
from .terms import (T, TRUE, FALSE, band, bor, bnot, bimp, bite, brestrict, mk, iconst, ite, proj, agg)

KEEP = ("int", "sym", "str", "fndef", "fnptr", "const", "fresh", "phi", "vnil", "text", "undef", "mempty")


class Rewriter:
    def __init__(self, leaf=None, interp=None, rules=()):
        self.leaf = leaf or {}
        self.I = interp
        self.rules = rules
        self.memo = {}
        self.bmemo = {}
        self.pcmemo = {}

    # -------- terms
    def __call__(self, x, pc=TRUE):
        if not isinstance(x, T):
            return x
        r = self.leaf.get(x)
        if r is not None:
            return r
        if x.op in KEEP:
            return x
        k = (x.id, pc)
        r = self.memo.get(k)
        if r is None:
            r = self._go(x, pc)
            for rule in self.rules:
                y = rule(r)
                if y is not None:
                    r = y
            self.memo[k] = r
        return r

    def _go(self, x, pc):
        o, a = x.op, x.args
        if o == "ite":
            c = self.b(a[0], pc)
            if c == TRUE or bimp(pc, c):
                return self(a[1], pc)
            if c == FALSE or band(pc, c) == FALSE:
                return self(a[2], pc)
            c = separate(c, pc)
            return ite(c, self(a[1], band(pc, c)), self(a[2], band(pc, bnot(c))))
        if o == "bool":
            return t.boolt(self.b(a[0], pc))
        if o == "poly":
            acc = iconst(0)
            for m, c in a[0]:
                e = iconst(c)
                for y in m:
                    e = t.mul(e, self(y, pc))
                acc = t.add(acc, e)
            return acc
        n = tuple(self.arg(y, pc) for y in a)
        if pc != TRUE:
            if o == "wrap":
                if fits(pc, n[1], n[0]):
                    return n[1]
                lo, hi = t.rng(n[1])
                m = 1 << n[0].bits
                for k in (1, -1, 2, -2):
                    e = t.sub(n[1], iconst(k * m))
                    if lo <= n[0].hi + k * m and hi >= n[0].lo + k * m and fits(pc, e, n[0]):
                        return e
            if o == "div" and n[1].op == "int" and n[1].args[0] > 0 and nonneg(pc, n[0]) and nonneg(pc, t.sub(iconst(n[1].args[0] - 1), n[0])):
                return iconst(0)
            if o == "tdiv" and nonneg(pc, n[0]) and nonneg(pc, n[1]):
                return t.div(*n)
            if o == "limb" and nonneg(pc, n[0]) and nonneg(pc, t.sub(iconst((1 << (64 * n[1])) - 1), n[0])):
                return iconst(0)
        if all(p is q for p, q in zip(n, a)) or n == a:
            return x
        return self.build(o, n, x, pc)

    def arg(self, y, pc):
        if isinstance(y, T):
            return self(y, pc)
        if isinstance(y, tuple):
            z = tuple(self.arg(v, pc) for v in y)
            return y if all(p is q for p, q in zip(z, y)) else z
        return y

    def build(self, o, n, x, pc):
        if o == "agg":
            return agg(n[0], n[1], n[2:], x.ty)
        if o == "proj":
            return proj(n[0], n[1], n[2], x.ty)
        if o == "div":
            return t.div(*n)
        if o == "tdiv":
            return t.tdiv(*n)
        if o == "mul":
            return t.mul(*n)
        if o == "trem":
            return t.trem(*n)
        if o == "wrap":
            if fits(pc, n[1], n[0]):
                return n[1]
            return t.wrap(n[0], n[1])
        if o == "bit":
            r = n[1][0]
            for y in n[1][1:]:
                r = t.bitop(n[0], r, y)
            return r
        if o == "bitat":
            return t.boolt(t.bitat(*n))
        if o == "fn" and n[0] in ("shr", "shl") and n[2].op == "int":
            return t.div(n[1], iconst(1 << n[2].args[0])) if n[0] == "shr" and 0 <= n[2].args[0] < 256 else mk(o, n, x.ty)
        if o == "mset":
            return t.mset(*n)
        if o == "mdel":
            return t.mdel(*n)
        if o == "sel":
            return t.msel(n[0], n[1], x.ty)
        if o == "len" and self.I is not None:
            return self.I.vlen(n[0])
        if o == "idx" and self.I is not None:
            return self.I.vidx(n[0], n[1], x.ty)
        if o == "limb" and self.I is not None:
            if n[0].op == "ite":
                return t.ite(n[0].args[0], self.I.limb(n[0].args[1], *n[1:]), self.I.limb(n[0].args[2], *n[1:]))
            return self.I.limb(n[0], n[1], n[2])
        return mk(o, n, x.ty)

    # -------- conditions
    def b(self, f, pc=TRUE):
        f = brestrict(f, pc)
        if f <= 1:
            return f
        k = (f, pc)
        r = self.bmemo.get(k)
        if r is None:
            r = t.bmap(f, lambda at: self.atom(at, pc))
            r = brestrict(r, pc)
            self.bmemo[k] = r
        return r

    def atom(self, at, pc):
        o = at.op
        n = [self.arg(y, pc) for y in at.args]
        if all(p is q for p, q in zip(n, at.args)):
            return t.bvar(at)
        if o == "ge0":
            return t.ge0(n[0])
        if o == "is":
            return t.is_variant(n[0], n[1], t.ENUM_VARIANTS.get(n[0].ty if n[0].ty is not None else at.args[0].ty))
        if o == "has":
            return t.mhas(n[0], n[1])
        if o == "eq":
            return t.eq(n[0], n[1])
        if o == "b":
            return t.as_bdd(n[0])
        return t.bvar(mk(o, n, at.ty))


_sep = {}


def separate(c, pc):
    """a condition equal to c wherever pc holds, over as few atoms as possible"""
    if c <= 1 or pc == TRUE:
        return c
    k = (c, pc)
    r = _sep.get(k)
    if r is not None:
        return r
    sup = t.bsupport(c)
    if len(sup) > 1:
        own = {t._atoms[v] for v in sup}
        # quantifying an atom away can lose what it implies about its neighbours, so c itself is kept
        lo = band(c, t.bexists(band(pc, c), lambda at: at not in own))
        hi = band(bnot(c), t.bexists(band(pc, bnot(c)), lambda at: at not in own))
        for v in sorted(sup, reverse=True):
            at = t._atoms[v]
            l2 = t.bexists(lo, lambda z: z is at)
            h2 = t.bexists(hi, lambda z: z is at)
            if band(l2, h2) == FALSE:
                lo, hi = l2, h2
        r = brestrict(lo, bor(lo, hi))
        if r <= 1 or len(t.bsupport(r)) > len(sup):
            r = c if r > 1 else r
    else:
        r = c
    _sep[k] = r
    return r


def gated(x):
    """x contains a gate, or a projection a rule could simplify"""
    if not isinstance(x, T):
        return isinstance(x, tuple) and any(gated(y) for y in x)
    r = _gated.get(x)
    if r is None:
        r = x.op in ("ite", "bool", "wrap", "limb", "tdiv") or x.op == "div" and x.args[1].op == "int" and x.args[1].args[0] >> 128 > 0 or (x.op not in KEEP and any(gated(y) for y in x.args if isinstance(y, (T, tuple))))
        _gated[x] = r
    return r


_gated = {}


def empties(p, lits):
    """a map of length 0 holds no key: add that for the keys in sight"""
    for v, val in lits.items():
        at = t._atoms[v]
        if at.op != "ge0" or val:
            continue
        d = t.to_poly(at.args[0])
        if len(d) == 2 and d.get(()) == -1:
            m, c = [(m, c) for m, c in d.items() if m][0]
            if c == 1 and len(m) == 1 and m[0].op == "len" and m[0].args[0].op in ("mset", "mdel", "sel", "proj", "phi", "after"):
                x = m[0].args[0]
                ks, bases, todo = set(), {x}, [x]
                while todo:
                    u, base = updates(todo.pop())
                    ks.update(k for k, _ in u)
                    if base.op == "ite":
                        todo.extend(base.args[1:3])
                    bases.add(base)
                for w in lits:
                    h = t._atoms[w]
                    if h.op == "has" and h.args[0] in bases:
                        ks.add(h.args[1])
                for k in ks:
                    p = band(p, bnot(t.mhas(x, k)))
    return p


def limits(p, lits):
    """high 64-bit limbs that are zero bound a value"""
    zl = {}
    for v, val in lits.items():
        at = t._atoms[v]
        if at.op != "ge0" or val:
            continue
        d = t.to_poly(at.args[0])
        if len(d) == 2 and d.get(()) == -1:
            m, c = [(m, c) for m, c in d.items() if m][0]
            if c == 1 and len(m) == 1 and m[0].op == "limb":
                x = m[0]
                zl.setdefault((x.args[0], x.args[2]), set()).add(x.args[1])
    for (x, n), z in zl.items():
        m = n
        while m > 0 and (m - 1 in z or t.rng(x)[1] < 1 << (64 * (m - 1))):
            m -= 1
        if m < n:
            p = band(p, t.ge0(t.sub(iconst((1 << (64 * m)) - 1), x)))
    return p


def normpc(pc, R):
    """an equivalent predicate with each atom's terms normalised under the other literals"""
    m = R.pcmemo.get(pc)
    if m is not None:
        return m
    p = pc
    for _ in range(4):
        lits = t.bliterals(p)
        if not lits:
            break
        new = limits(empties(p, lits), lits)
        for v, val in lits.items():
            at = t._atoms[v]
            if new == FALSE:
                break
            if not any(gated(y) for y in at.args) or t.bliterals(new).get(v) is not val:
                continue
            rest = t.bcofactor(new, v, val)
            q = R.atom(at, rest)
            new = band(rest, q if val else bnot(q))
        if new > 1:
            cube = TRUE
            for v, val in t.bliterals(new).items():
                a = t.bvar(t._atoms[v])
                cube = band(cube, a if val else bnot(a))
            q = brestrict(new, cube)
            if q > 1:
                q = t.bmap(q, lambda at: R.atom(at, cube) if any(gated(y) for y in at.args) else t.bvar(at))
                new = band(cube, q)
        if new == p:
            break
        p = new
        if p == FALSE:
            break
    R.pcmemo[pc] = p
    return p


_facts = {}


def facts(pc):
    """[p] with p >= 0 implied by the literals of pc"""
    r = _facts.get(pc)
    if r is None:
        r = []
        for v, val in t.bliterals(pc).items():
            at = t._atoms[v]
            if at.op == "ge0":
                r.append(at.args[0] if val else t.sub(t.neg(at.args[0]), iconst(1)))
        _facts[pc] = r
    return r


_lin = {}


def nonneg(pc, e, depth=9):
    """e >= 0 follows from at most two of pc's inequalities, the ranges of the terms and the signs of products"""
    if t.rng(e)[0] >= 0 or bimp(pc, t.ge0(e)):
        return True
    k = (pc, e, depth)
    r = _lin.get(k)
    if r is None:
        r = _lin[k] = linear(pc, e) or (depth > 0 and signed(pc, e, depth - 1))
    return r


def signed(pc, e, depth):
    d = dict(t.to_poly(e))
    n0 = len(d)
    if n0 == 1:
        (m, c), = d.items()
        return c > 0 and all(nonneg_atom(pc, y, depth) for y in m)
    # a quotient below a constant
    if d.get((), 0) >= 0 and len([m for m in d if m]) == 1:
        (m, c), = [(m, c) for m, c in d.items() if m]
        if c < 0 and len(m) == 1 and m[0].op == "div":
            x, y = m[0].args
            q = d.get((), 0) // -c
            if y.op == "int" and y.args[0] > 0:
                return nonneg(pc, t.sub(iconst(q * y.args[0] + y.args[0] - 1), x), depth)
            if lower(pc, y) >= 1:
                return nonneg(pc, t.sub(iconst(q), x), depth)
    if d.get((), 0) > 0:
        del d[()]
    # a common factor
    ms = list(d)
    if ms and all(ms):
        for y in set(ms[0]):
            if all(y in m for m in ms) and t.rng(y)[0] >= 0:
                q = {}
                for m, c in d.items():
                    l = list(m)
                    l.remove(y)
                    q[tuple(l)] = c
                if nonneg(pc, t.from_poly(q), depth):
                    return True
    if len(d) < n0 and nonneg(pc, t.from_poly(d), depth):
        return True
    # one term outweighs a negative constant
    c0 = d.get((), 0)
    if c0 < 0:
        for m, c in d.items():
            if len(m) > 1 and c > 0:
                b = c
                for y in m:
                    b *= max(lower(pc, y), 0)
                if b + c0 >= 0 and nonneg(pc, t.from_poly({k: v for k, v in d.items() if k not in (m, ())}), depth):
                    return True
    if c0 < 0 and n0 > 2:
        for m, c in d.items():
            if m and c > 0 and bimp(pc, t.ge0(t.from_poly({m: c, (): c0}))) and \
                    nonneg(pc, t.from_poly({k: v for k, v in d.items() if k not in (m, ())}), depth):
                return True
    # terms that are non-negative by themselves
    rest = {m: c for m, c in d.items() if not (m and c > 0 and all(nonneg_atom(pc, y, depth) for y in m))}
    return not rest or (len(rest) < n0 and nonneg(pc, t.from_poly(rest), depth))


def lower(pc, y):
    """a lower bound of one term"""
    lo = t.rng(y)[0]
    for p in facts(pc):
        d = t.to_poly(p)
        if len(d) == 2 and d.get((y,)) == 1 and () in d:
            lo = max(lo, -d[()])
    return lo


def nonneg_atom(pc, y, depth):
    if t.rng(y)[0] >= 0:
        return True
    if y.op == "div" and depth > 0 and nonneg(pc, y.args[1], depth - 1):
        return nonneg(pc, y.args[0], depth - 1)
    return bimp(pc, t.ge0(y))


def divfacts(pc, ms):
    """y * floor(x / y) lies within y of x"""
    r = []
    for m in ms:
        for d in m:
            if d.op == "div":
                x, y = d.args
                if len(m) > 1 and y in m or y.op == "int":
                    if lower(pc, y) >= 1:
                        k = t.sub(x, t.mul(y, d))
                        r += [k, t.sub(t.sub(y, iconst(1)), k)]
    return r


def linear(pc, e):
    ms = set(m for m in t.to_poly(e) if m)
    fs = facts(pc)
    df = divfacts(pc, ms)
    if df:
        fs = fs + df
    near = [p for p in fs if any(m in ms for m in t.to_poly(p) if m)]
    for p in near:
        d = t.sub(e, p)
        if t.rng(d)[0] >= 0:
            return True
        md = set(m for m in t.to_poly(d) if m)
        if len(md) > 4:
            continue
        for q in fs:
            if q is not p and any(m in md for m in t.to_poly(q) if m) and t.rng(t.sub(d, q))[0] >= 0:
                return True
    # a multiple of a fact
    pe = t.to_poly(e)
    if len(ms) > 4:
        return False
    for p in near:
        for d, k in multiples(pe, e, p):
            if k > 1:
                if t.rng(d)[0] >= 0:
                    return True
            md = set(m for m in t.to_poly(d) if m)
            if len(md) > 4:
                continue
            pd = t.to_poly(d)
            for q in fs:
                if q is not p and any(t.rng(x)[0] >= 0 for x, j in multiples(pd, d, q) if k > 1 or j > 1):
                    return True
    return False


def multiples(pe, e, p):
    """e - k * p for the multiples k > 0 that cancel a monomial"""
    ks = set()
    for m, c in t.to_poly(p).items():
        x = pe.get(m)
        if m and x and x % c == 0 and x // c > 0:
            ks.add(x // c)
    return [(t.sub(e, t.mul(iconst(k), p)), k) for k in ks]


def absurd(pc):
    """the literals of pc contradict each other arithmetically"""
    for v, val in t.bliterals(pc).items():
        at = t._atoms[v]
        if at.op == "ge0":
            e = at.args[0] if not val else t.sub(t.neg(at.args[0]), iconst(1))
            if nonneg(t.bcofactor(pc, v, val), e):
                return True
    return False


def fits(pc, v, it):
    return nonneg(pc, t.sub(v, iconst(it.lo))) and nonneg(pc, t.sub(iconst(it.hi), v))


_eqm = {}


class TooHard(Exception):
    pass


def conds(x, out, depth=0):
    """gating conditions visible in x without crossing another gate"""
    if not isinstance(x, T):
        if isinstance(x, tuple):
            for y in x:
                conds(y, out, depth)
        return
    if x.op == "ite":
        out.append(x.args[0])
        return
    if x.op in KEEP or x.op == "bool":
        return
    if len(out) > 40:
        return
    for y in x.args:
        conds(y, out, depth)


def occurs(x, y, memo=None):
    """x occurs in y"""
    memo = memo if memo is not None else {}
    if x is y:
        return True
    if not isinstance(y, T):
        return isinstance(y, tuple) and any(occurs(x, z, memo) for z in y)
    r = memo.get(y)
    if r is None:
        memo[y] = r = any(occurs(x, z, memo) for z in y.args if isinstance(z, (T, tuple)))
    return r


_solved = {}


def solve1(p):
    """p = 0 solved for one atom: (atom, term)"""
    d = t.to_poly(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and abs(c) == 1 and m[0].op != "ite":
            rest = t.neg(t.from_poly({n: e for n, e in d.items() if n != m}))
            rest = rest if c == 1 else t.neg(rest)
            cand = (m[0].op != "sym" or not str(m[0].args[0]).isupper(), -m[0].id, m[0], rest)
            if not occurs(m[0], rest) and (best is None or cand[:2] < best[:2]):
                best = cand
    return (best[2], best[3]) if best else None


def parents(x, y, R):
    """x is y, and the structs of which x is a field are known accordingly"""
    leaf = {x: y}
    while x.op == "proj" and x.args[1] == 0:
        s, i = x.args[0], x.args[2]
        fs = t.STRUCT_FIELDS.get(s.ty)
        if fs is None or s.op in KEEP + ("agg", "ite") or i >= len(fs):
            break
        y = agg(s.ty, 0, [y if j == i else R(proj(s, 0, j, ft)) for j, ft in enumerate(fs)], s.ty)
        if y is s:
            break
        leaf[s] = y
        x = s
    return leaf


def equalities(pc, R0):
    """a substitution {term: equal term} implied by the literals of pc"""
    r = _solved.get((pc, id(R0)))
    if r is not None:
        return r
    sub = {}
    lits = t.bliterals(pc)
    todo = []
    for v, val in lits.items():
        at = t._atoms[v]
        if at.op == "eq" and val:
            todo.append((at.args[0], at.args[1]))
        fo = t._form_of.get(v)
        if fo is not None and not isinstance(fo[1], tuple):
            q, k = fo
            if val:
                w = t._forms[q].get(k + 1)
                hit = w is not None and lits.get(w) is False or t.rng(q)[1] == k
            else:
                k -= 1
                hit = t.rng(q)[0] == k
            if hit:
                todo.append((q, iconst(k)))
    # a value whose 64-bit limbs are all zero is zero
    zl = {}
    for x, y in todo:
        if x.op == "limb" and y.op == "int" and y.args[0] == 0:
            zl.setdefault((x.args[0], x.args[2]), set()).add(x.args[1])
    for (x, n), z in zl.items():
        m = n
        while m > 0 and (m - 1 in z or bimp(pc, t.ge0(t.sub(iconst((1 << (64 * (m - 1))) - 1), x)))):
            m -= 1
        if m == 0:
            todo.append((x, iconst(0)))
    for x, y in todo:
        R = Rewriter(leaf=sub)
        x, y = R(R0(x, pc)), R(R0(y, pc))
        if x is y:
            continue
        if x.op in ("int", "poly") or y.op in ("int", "poly"):
            # isolate one atom of the integer equation again
            s = solve1(t.sub(x, y))
            if s is None:
                continue
            x, y = s
            leaf = parents(x, y, R)
            one = Rewriter(leaf=leaf)
            sub = {k: one(v) for k, v in sub.items()}
            sub.update(leaf)
            continue
        # eliminate generic symbols first, otherwise the newer term
        kx = (x.op == "sym" and str(x.args[0]).isupper(), x.op not in ("int", "agg", "poly"), x.id)
        ky = (y.op == "sym" and str(y.args[0]).isupper(), y.op not in ("int", "agg", "poly"), y.id)
        if ky > kx:
            x, y = y, x
        if x.op in ("int", "agg", "poly") or occurs(x, y):
            continue
        leaf = parents(x, y, R)
        one = Rewriter(leaf=leaf)
        sub = {k: one(v) for k, v in sub.items()}
        sub.update(leaf)
    _solved[(pc, id(R0))] = sub
    return sub


def equiv(a, b, pc, R=None, budget=None):
    """a and b denote the same value whenever pc holds"""
    R = R or Rewriter()
    budget = budget if budget is not None else [6000]
    memo = {}
    rounds = {}

    def go(a, b, pc):
        if a is b or pc == FALSE:
            return True
        k = (a.id, b.id, pc)
        r = memo.get(k)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            raise TooHard("equality too large to decide")
        r = _go(a, b, pc)
        if not r and not budget[1:] and absurd(normpc(pc, R)):
            r = True
        if not r and not budget[1:]:
            budget.append((a, b, pc))
        memo[k] = r
        return r

    def _go(a, b, pc):
        p2 = normpc(pc, R)
        if p2 != pc:
            rounds[p2] = max(rounds.get(p2, 0), rounds.get(pc, 0))
            return go(a, b, p2)
        a, b = R(a, pc), R(b, pc)
        if a is b:
            return True
        sub = equalities(pc, R) if rounds.get(pc, 0) < 4 else None
        if sub:
            Q = Rewriter(leaf=sub, interp=R.I, rules=R.rules)
            p2 = normpc(band(pc, Q.b(pc)), R)
            if p2 == FALSE:
                return True
            a2, b2 = Q(a), Q(b)
            a2, b2 = R(a2, p2), R(b2, p2)
            if a2 is not a or b2 is not b or p2 != pc:
                rounds[p2] = max(rounds.get(p2, 0), rounds.get(pc, 0) + 1)
                return go(a2, b2, p2)
        if a.op == "bool" or b.op == "bool":
            return band(pc, t.bxor(R.b(t.as_bdd(a), pc), R.b(t.as_bdd(b), pc))) == FALSE
        # split on a gate of either side
        for x in (a, b):
            if x.op == "ite":
                c = x.args[0]
                return go(a, b, band(pc, c)) and go(a, b, band(pc, bnot(c)))
        if a.op == "undef" and b.op == "undef":
            return True
        if t.numeric(a) and t.numeric(b):
            if bimp(pc, t.eq0(t.sub(a, b))):
                return True
        # gates deeper inside
        out = []
        conds(a, out)
        conds(b, out)
        for c in out:
            c = brestrict(c, pc)
            if c > 1:
                return go(a, b, band(pc, c)) and go(a, b, band(pc, bnot(c)))
        if t.numeric(a) and t.numeric(b):
            c = pivot(a, b, pc)
            if c is not None:
                return go(a, b, band(pc, c)) and go(a, b, band(pc, bnot(c)))
            return False
        if a.op == b.op and len(a.args) == len(b.args):
            if a.op == "phi" or a.op == "fresh":
                return False
            if all(same(x, y, pc) for x, y in zip(a.args, b.args)):
                return True
        if a.ty is not None and a.ty == b.ty or a.op == "agg" or b.op == "agg":
            e = t.eq(a, b)
            if bimp(pc, R.b(e, pc)):
                return True
        if mapeq(a, b, pc):
            return True
        c = pivot(a, b, pc)
        return c is not None and go(a, b, band(pc, c)) and go(a, b, band(pc, bnot(c)))

    def pivot(a, b, pc):
        """an undecided condition in pc that bears on the values in which a and b differ"""
        d = set()
        if t.numeric(a) and t.numeric(b):
            for m in t.to_poly(t.sub(a, b)):
                d.update(m)
        lits = t.bliterals(pc)
        sup = [v for v in t.bsupport(pc) if v not in lits]
        best = None
        for v in sup:
            at = t._atoms[v]
            if at.op == "ge0" and d:
                ms = set()
                for m in t.to_poly(at.args[0]):
                    for y in m:
                        ms.update(y2 for m2 in t.to_poly(y.args[0]) for y2 in m2) if y.op == "limb" else ms.add(y)
                n = len(ms & d)
                if n:
                    c = (-n, len(ms), v)
                    if best is None or c < best:
                        best = c
        if best:
            return t.bvar(t._atoms[best[2]])
        for v in sup:
            at = t._atoms[v]
            if at.op == "eq":
                return t.bvar(at)
        for v in sup:
            at = t._atoms[v]
            if at.op == "ge0" and any(y.op == "len" for m in t.to_poly(at.args[0]) for y in m):
                return t.bvar(at)
        # a gate inside the atoms
        for v in sup + list(lits):
            out = []
            conds(t._atoms[v].args, out)
            for c in out:
                c = brestrict(c, pc)
                if c > 1:
                    u = [w for w in t.bsupport(c) if w not in lits]
                    if u:
                        return t.bvar(t._atoms[min(u)])
        # anything left undecided: first map sizes, then membership, then the rest
        rank = {"len": 0, "has": 1, "is": 2}
        best = None
        for v in sup:
            at = t._atoms[v]
            k = at.op
            if k == "ge0":
                k = "len" if any(y.op == "len" for m in t.to_poly(at.args[0]) for y in m) else k
            c = (rank.get(k, 3), v)
            if best is None or c < best:
                best = c
        return t.bvar(t._atoms[best[1]]) if best else None

    def same(x, y, pc):
        if isinstance(x, T) and isinstance(y, T):
            return go(x, y, pc)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(same(p, q, pc) for p, q in zip(x, y))
        return x == y

    def mapeq(a, b, pc):
        """two maps are the same when every key written in either reads back the same"""
        ua, ba = updates(a)
        ub, bb = updates(b)
        if not (ua or ub) or not go(ba, bb, pc):
            return False
        for k in dict.fromkeys([k for k, _ in ua] + [k for k, _ in ub]):
            ha, hb = R.b(t.mhas(a, k), pc), R.b(t.mhas(b, k), pc)
            if band(pc, t.bxor(ha, hb)) != FALSE:
                return False
            p = band(pc, ha)
            if p != FALSE and not go(t.msel(a, k), t.msel(b, k), p):
                return False
        return True

    return go(a, b, pc)


def updates(m):
    """[(key, value|None)] newest first, base map"""
    u = []
    while True:
        if m.op == "mset":
            u.append((m.args[1], m.args[2]))
            m = m.args[0]
        elif m.op == "mdel":
            u.append((m.args[1], None))
            m = m.args[0]
        else:
            return u, m
