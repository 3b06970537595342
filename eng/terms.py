"""Hash-consed value-number terms, canonical integer polynomials and BDD path predicates.

All analyses of /verif run over these: a program value is a term, a branch condition is a BDD over
atoms (canonical comparisons / variant tests), and two program points that compute the same value in
different syntactic ways end up with the same node.
"""
import sys

sys.setrecursionlimit(20000)
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "ty", "id", "deps", "_rng")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


# functions in whose first two arguments the order does not matter (property E01: both depend on |a - b| only)
EXCHANGEABLE = {"math::clamm::get_delta_x", "math::clamm::get_delta_y"}


def mk(op, args, ty=None):
    args = tuple(args)
    if op == "fn" and args[0] in EXCHANGEABLE and args[1].id > args[2].id:
        args = (args[0], args[2], args[1]) + args[3:]
    key = (op, args, ty) if op == "sym" else (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.ty = ty
        t.id = len(_all)
        t._rng = None
        d = EMPTY
        for a in args:
            if isinstance(a, T):
                if a.deps:
                    d = d | a.deps
            elif isinstance(a, tuple):
                d = d | _tdeps(a)
        if op == "ite":
            d = d | bdd_deps(args[0])
        elif op == "bool":
            d = d | bdd_deps(args[0])
        elif op == "phi":
            d = d | frozenset([args[0]])
        t.deps = d
        _tab[key] = t
        _all.append(t)
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def _tdeps(a):
    d = EMPTY
    for x in a:
        if isinstance(x, T):
            if x.deps:
                d = d | x.deps
        elif isinstance(x, tuple):
            d = d | _tdeps(x)
    return d


# ---------------------------------------------------------------- BDD
FALSE, TRUE = 0, 1
_bvar = [1 << 60, 1 << 60]
_bhi = [None, None]
_blo = [None, None]
_buniq = {}
_bite = {}
_atoms = []  # var -> term
_atom_of = {}
_bdeps = {0: EMPTY, 1: EMPTY}


_form_of = {}  # var -> (linear form, threshold)  |  ("is", term, variant)
_forms = {}  # linear form -> {threshold: var}
_isvars = {}  # enum term -> {variant: var}


def _implied(v, val):
    """Other variables decided by variable v having the value val: [(var, value)]"""
    fo = _form_of.get(v)
    if fo is None:
        return ()
    q, k = fo
    if k is None:
        return ()
    if isinstance(k, tuple):  # variant test
        if not val:
            return ()
        return [(w, False) for x, w in _isvars[q].items() if w != v]
    d = _forms[q]
    if len(d) == 1:
        return ()
    if val:  # q >= k: every lower threshold holds
        return [(w, True) for x, w in d.items() if x < k]
    return [(w, False) for x, w in d.items() if x > k]


_cofm = {}


def _cof_all(f, lits):
    for w, val in lits:
        if f <= 1:
            return f
        f = bcofactor(f, w, val)
    return f


def _bmk(v, hi, lo):
    if hi == lo:
        return hi
    if v in _form_of:
        iv = _implied(v, True)
        if iv:
            hi = _cof_all(hi, iv)
            if hi == lo or _cof_all(lo, iv) == hi:
                return lo
        jv = _implied(v, False)
        if jv:
            lo = _cof_all(lo, jv)
            if hi == lo or _cof_all(hi, jv) == lo:
                return hi
    k = (v, hi, lo)
    n = _buniq.get(k)
    if n is None:
        n = len(_bvar)
        _bvar.append(v)
        _bhi.append(hi)
        _blo.append(lo)
        _buniq[k] = n
    return n


def bvar(atom):
    """BDD of a positive atom (a term)."""
    v = _atom_of.get(atom)
    if v is None:
        v = len(_atoms)
        _atoms.append(atom)
        _atom_of[atom] = v
        if atom.op == "ge0":
            d = to_poly(atom.args[0])
            c0 = d.pop((), 0)
            q = from_poly(d)
            _form_of[v] = (q, -c0)
            _forms.setdefault(q, {})[-c0] = v
        elif atom.op == "is":
            _form_of[v] = (atom.args[0], ("is", atom.args[1]))
            _isvars.setdefault(atom.args[0], {})[atom.args[1]] = v
    return _bmk(v, TRUE, FALSE)


def bite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _bite.get(k)
    if r is not None:
        return r
    v = min(_bvar[f], _bvar[g], _bvar[h])
    f1, f0 = (_bhi[f], _blo[f]) if _bvar[f] == v else (f, f)
    g1, g0 = (_bhi[g], _blo[g]) if _bvar[g] == v else (g, g)
    h1, h0 = (_bhi[h], _blo[h]) if _bvar[h] == v else (h, h)
    r = _bmk(v, bite(f1, g1, h1), bite(f0, g0, h0))
    _bite[k] = r
    return r


def bnot(f):
    return bite(f, FALSE, TRUE)


def band(f, g):
    return bite(f, g, FALSE)


def bor(f, g):
    return bite(f, TRUE, g)


def bxor(f, g):
    return bite(f, bnot(g), g)


def bimp(f, g):
    """f implies g (as BDDs)"""
    return band(f, bnot(g)) == FALSE


_brestrict = {}


def brestrict(f, care):
    """A small function equal to f wherever care holds (Coudert-Madre restrict)."""
    if care == TRUE or f <= 1:
        return f
    if care == FALSE:
        return FALSE
    k = (f, care)
    r = _brestrict.get(k)
    if r is not None:
        return r
    if _bvar[care] < _bvar[f]:
        r = brestrict(f, bor(_bhi[care], _blo[care]))
    else:
        v = _bvar[f]
        if _bvar[care] == v:
            if _bhi[care] == FALSE:
                r = brestrict(_blo[f], _blo[care])
            elif _blo[care] == FALSE:
                r = brestrict(_bhi[f], _bhi[care])
            else:
                r = _bmk(v, brestrict(_bhi[f], _bhi[care]), brestrict(_blo[f], _blo[care]))
        else:
            r = _bmk(v, brestrict(_bhi[f], care), brestrict(_blo[f], care))
    _brestrict[k] = r
    return r


def bcofactor(f, v, val):
    if f <= 1 or _bvar[f] > v:
        return f
    if _bvar[f] == v:
        return _bhi[f] if val else _blo[f]
    k = (f, v, val)
    r = _cofm.get(k)
    if r is None:
        r = _bmk(_bvar[f], bcofactor(_bhi[f], v, val), bcofactor(_blo[f], v, val))
        _cofm[k] = r
    return r


def bexists(f, pred):
    """Quantify away every atom for which pred(atom) holds."""
    memo = {}

    def go(f):
        if f <= 1:
            return f
        r = memo.get(f)
        if r is None:
            h, l = go(_bhi[f]), go(_blo[f])
            r = bor(h, l) if pred(_atoms[_bvar[f]]) else bite(_bmk(_bvar[f], TRUE, FALSE), h, l)
            memo[f] = r
        return r

    return go(f)


def bsupport(f):
    seen, out, st = set(), set(), [f]
    while st:
        n = st.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        out.add(_bvar[n])
        st.append(_bhi[n])
        st.append(_blo[n])
    return out


def batoms(f):
    return [_atoms[v] for v in sorted(bsupport(f))]


def bdd_deps(f):
    r = _bdeps.get(f)
    if r is None:
        r = _atoms[_bvar[f]].deps | bdd_deps(_bhi[f]) | bdd_deps(_blo[f])
        _bdeps[f] = r
    return r


_blits = {}


def bliterals(f):
    """The literals {atom var: polarity} implied by f."""
    if f <= 1:
        return {}
    r = _blits.get(f)
    if r is not None:
        return r
    h, l, v = _bhi[f], _blo[f], _bvar[f]
    if l == FALSE:
        r = dict(bliterals(h))
        r[v] = True
    elif h == FALSE:
        r = dict(bliterals(l))
        r[v] = False
    else:
        a, b = bliterals(h), bliterals(l)
        r = {k: p for k, p in a.items() if b.get(k) == p}
    _blits[f] = r
    return r


def bmap(f, fn):
    """Rebuild f with every atom replaced by the BDD fn(atom)."""
    memo = {}

    def go(f):
        if f <= 1:
            return f
        r = memo.get(f)
        if r is None:
            r = bite(fn(_atoms[_bvar[f]]), go(_bhi[f]), go(_blo[f]))
            memo[f] = r
        return r

    return go(f)


# ---------------------------------------------------------------- types
class IntTy:
    def __init__(self, name, bits, signed):
        self.name, self.bits, self.signed = name, bits, signed
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1


INT_TYPES = {}
for _b in (8, 16, 32, 64, 128):
    INT_TYPES["u%d" % _b] = IntTy("u%d" % _b, _b, False)
    INT_TYPES["i%d" % _b] = IntTy("i%d" % _b, _b, True)
# the contract runs on wasm32: usize is 32 bits wide there
INT_TYPES["usize"] = IntTy("usize", 32, False)
INT_TYPES["isize"] = IntTy("isize", 32, True)
INT_TYPES["char"] = IntTy("char", 32, False)


# ---------------------------------------------------------------- integers
def iconst(n):
    return mk("int", (int(n),))


def sym(name, ty=None):
    return mk("sym", (name,), ty)


def fn(op, args, ty=None):
    return mk("fn", (op,) + tuple(args), ty)


def is_int(t):
    return t.op == "int"


def to_poly(t):
    """dict monomial(tuple of atoms sorted by id) -> coefficient"""
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return iconst(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return iconst(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda x: (tuple(a.id for a in x[0]))))
    return mk("poly", (items,))


def add(a, b):
    if a.op == "int" and b.op == "int":
        return iconst(a.args[0] + b.args[0])
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "int" and b.op == "int":
        return iconst(a.args[0] * b.args[0])
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 600:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("mul", (x, y))
    p = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            p[k] = p.get(k, 0) + c * d
    return from_poly(p)


INF = float("inf")


def rng(t):
    """Interval of an integer term from types and structure alone."""
    if t._rng is not None:
        return t._rng
    r = _rng(t)
    if t.op == "ite":  # its branches may be sums beyond the type's range
        t._rng = r
        return r
    if t.ty in INT_TYPES or isinstance(t.ty, IntTy):
        it = t.ty if isinstance(t.ty, IntTy) else INT_TYPES[t.ty]
        r = (max(r[0], it.lo), min(r[1], it.hi))
    elif t.ty in BIG and t.op not in ("poly", "int"):
        r = (max(r[0], 0), min(r[1], BIG[t.ty].hi))
    t._rng = r
    return r


def _mulr(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    v = [m(x, y) for x in a for y in b]
    return (min(v), max(v))


def _rng(t):
    o = t.op
    if o == "int":
        return (t.args[0], t.args[0])
    if o == "poly":
        lo = hi = 0
        for m, c in t.args[0]:
            r = (1, 1)
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] is m[i]:
                    j += 1
                base = rng(m[i])
                k = j - i
                if k % 2 == 0 and base[0] < 0:
                    mx = max(abs(base[0]), abs(base[1]))
                    pr = (0, mx ** k if mx != INF else INF)
                else:
                    pr = (1, 1)
                    for _ in range(k):
                        pr = _mulr(pr, base)
                r = _mulr(r, pr)
                i = j
            if c >= 0:
                lo += c * r[0] if r[0] else 0
                hi += c * r[1] if r[1] else 0
            else:
                lo += c * r[1] if r[1] else 0
                hi += c * r[0] if r[0] else 0
        for m, c in t.args[0]:
            # a*(n - k*floor(n/k)) lies between 0 and a*(k-1)
            if len(m) == 1 and m[0].op == "div" and m[0].args[1].op == "int" and m[0].args[1].args[0] and c % m[0].args[1].args[0] == 0:
                k = m[0].args[1].args[0]
                a = -c // k
                rest = sub(sub(t, mul(iconst(c), m[0])), mul(iconst(a), m[0].args[0]))
                if rest.op == "int":
                    v = rest.args[0]
                    w = v + a * (k - 1)
                    return (max(lo, min(v, w)), min(hi, max(v, w)))
        return (lo, hi)
    if o == "div":
        a, b = rng(t.args[0]), rng(t.args[1])
        if b[0] >= 0:
            bl = max(b[0], 1)
            lo = 0 if a[0] == 0 else (a[0] // bl if a[0] < 0 else (0 if b[1] == INF else a[0] // b[1]))
            if a[0] == -INF:
                lo = -INF
            hi = INF if a[1] == INF else (a[1] // bl if a[1] >= 0 else 0)
            return (lo, hi)
        return (-INF, INF)
    if o == "tdiv":
        a, b = rng(t.args[0]), rng(t.args[1])
        m = max(abs(a[0]), abs(a[1]))
        return (-m, m)
    if o == "trem":
        b = rng(t.args[1])
        m = max(abs(b[0]), abs(b[1]))
        m = m - 1 if m > 0 else 0
        return (-m, m) if rng(t.args[0])[0] < 0 else (0, m)
    if o == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o == "wrap":
        return (t.args[0].lo, t.args[0].hi)
    if o == "bit":
        k = t.args[0]
        ra = [rng(x) for x in t.args[1]]
        if all(r[0] >= 0 for r in ra):
            if k == "and":
                return (0, min(r[1] for r in ra))
            mx = max(r[1] for r in ra)
            if mx == INF:
                return (0, INF)
            return (0, (1 << int(mx).bit_length()) - 1)
        return (-INF, INF)
    if o == "limb":
        return (0, (1 << 64) - 1)
    if o == "pow":
        b, e = rng(t.args[0]), rng(t.args[1])
        if b[0] >= 1 and e[0] >= 0 and b[1] < 1 << 16 and e[1] <= 4096:
            return (int(b[0]) ** int(e[0]), int(b[1]) ** int(e[1]))
        return (0, INF)
    if o == "len":
        return (0, INF)
    return (-INF, INF)


def div(a, b):
    """floor division for a non-negative divisor"""
    if a.op == "int" and b.op == "int" and b.args[0] != 0:
        return iconst(a.args[0] // b.args[0])
    if b.op == "int":
        d = b.args[0]
        if d == 1:
            return a
        if d > 0:
            p = to_poly(a)
            q, r = {}, {}
            for m, c in p.items():
                k, rest = divmod(c, d)
                if rest == 0:
                    q[m] = k
                elif m == ():
                    if k:
                        q[m] = k
                    r[m] = rest
                else:
                    r[m] = c
            if not r:
                return from_poly(q)
            ra = from_poly(r)
            if q:
                return add(from_poly(q), div(ra, b))
            lo, hi = rng(ra)
            if lo > -INF and hi < INF and lo // d == hi // d:
                return iconst(int(lo // d))
            # common factor of numerator and divisor
            from math import gcd
            g = d
            for c in r.values():
                g = gcd(g, c)
            if g > 1:
                return div(from_poly({m: c // g for m, c in r.items()}), iconst(d // g))
            # floor(floor(x/m)/n) = floor(x/(m*n))
            if ra.op == "div" and ra.args[1].op == "int" and ra.args[1].args[0] > 0:
                return div(ra.args[0], iconst(ra.args[1].args[0] * d))
            return mk("div", (ra, b))
    if a.op == "int" and a.args[0] == 0:
        return a
    if a is b:
        return iconst(1)
    pa, pb = to_poly(a), to_poly(b)
    # exact division when the divisor is a single atom/monomial occurring in every monomial
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q, r = {}, {}
        for m, c in pa.items():
            ok = c % cb == 0
            rest = list(m)
            for x in mb:
                if ok and x in rest:
                    rest.remove(x)
                else:
                    ok = False
            if ok:
                q[tuple(rest)] = c // cb
            else:
                r[m] = c
        # floor((k*b + r)/b) = k + floor(r/b)
        if q and not r:
            return from_poly(q)
        if q and rng(b)[0] >= 0:
            return add(from_poly(q), div(from_poly(r), b))
    else:
        # a == k * b exactly
        ks = set()
        if set(pa) == set(pb):
            for m in pa:
                if pa[m] % pb[m] == 0:
                    ks.add(pa[m] // pb[m])
                else:
                    ks.add(None)
            if len(ks) == 1 and None not in ks:
                return iconst(ks.pop())
    if a.op == "div" and rng(b)[0] >= 0:
        return div(a.args[0], mul(a.args[1], b))
    return mk("div", (a, b))


def mod(a, b):
    if a.op == "int" and b.op == "int" and b.args[0] > 0:
        return iconst(a.args[0] % b.args[0])
    if a.op == "fn" and a.args[0] == "shr" and b.op == "int" and b.args[0] == 2:
        return ite(bitat(a.args[1], a.args[2]), iconst(1), iconst(0))
    return sub(a, mul(b, div(a, b)))


def bitat(v, n, memo=None):
    """bit n of a word as a condition"""
    memo = {} if memo is None else memo
    r = memo.get(v)
    if r is None:
        if v.op == "int":
            if n.op == "int":
                r = TRUE if v.args[0] >> n.args[0] & 1 else FALSE
            else:
                r = FALSE
                for i in range(v.args[0].bit_length()):
                    if v.args[0] >> i & 1:
                        r = bor(r, eq0(sub(n, iconst(i))))
        elif v.op == "ite":
            r = bite(v.args[0], bitat(v.args[1], n, memo), bitat(v.args[2], n, memo))
        elif v.op == "bit" and v.args[0] in ("xor", "or", "and"):
            rs = [bitat(y, n, memo) for y in v.args[1]]
            r = rs[0]
            for y in rs[1:]:
                r = bxor(r, y) if v.args[0] == "xor" else bor(r, y) if v.args[0] == "or" else band(r, y)
        elif v.op == "pow" and v.args[0].op == "int" and v.args[0].args[0] == 2:
            r = eq0(sub(n, v.args[1]))
        elif v.op == "poly" and rng(n)[1] < 64 and eq0(add(sub(v, iconst(2 ** 64 - 1)), comp64(v))) == TRUE:
            r = bnot(bitat(comp64(v), n, memo))
        else:
            r = as_bdd(mk("bitat", (v, n), "bool"))
        memo[v] = r
    return r


def comp64(v):
    """the one term whose bitwise complement v could be"""
    d = to_poly(v)
    if len(d) == 2 and d.get(()) == 2 ** 64 - 1:
        m, c = [(m, c) for m, c in d.items() if m][0]
        if c == -1 and len(m) == 1:
            return m[0]
    return iconst(0)


def tdiv(a, b):
    if rng(a)[0] >= 0 and rng(b)[0] >= 0:
        return div(a, b)
    if a.op == "int" and b.op == "int" and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return iconst(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b.op == "int" and b.args[0] == 1:
        return a
    if rng(a)[1] <= 0 and rng(b)[0] >= 0:
        return neg(div(neg(a), b))
    if rng(b)[0] >= 1:
        q = exact(a, b)
        if q is not None:
            return q
    return mk("tdiv", (a, b))


def exact(a, b):
    """a / b where the positive b divides every monomial of a"""
    pb = to_poly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    q = {}
    for m, c in to_poly(a).items():
        rest = list(m)
        for x in mb:
            if x not in rest:
                return None
            rest.remove(x)
        if c % cb:
            return None
        q[tuple(rest)] = c // cb
    return from_poly(q)


def trem(a, b):
    if rng(a)[0] >= 0 and rng(b)[0] >= 0:
        return mod(a, b)
    if a.op == "int" and b.op == "int" and b.args[0] != 0:
        r = abs(a.args[0]) % abs(b.args[0])
        return iconst(-r if a.args[0] < 0 else r)
    return sub(a, mul(b, tdiv(a, b)))


def wrap(ity, t):
    """value of t after reduction to the fixed-width type"""
    lo, hi = rng(t)
    if lo >= ity.lo and hi <= ity.hi:
        return t
    if t.op == "int":
        n = t.args[0] & ((1 << ity.bits) - 1)
        if ity.signed and n > ity.hi:
            n -= 1 << ity.bits
        return iconst(n)
    if t.op == "ite":
        return ite(t.args[0], wrap(ity, t.args[1]), wrap(ity, t.args[2]))
    if t.op == "wrap" and t.args[0].bits >= ity.bits:
        return wrap(ity, t.args[1])
    # only the residue matters: strip inner wraps of at least this width from the polynomial
    if t.op == "poly":
        p = {}
        changed = False
        acc = iconst(0)
        for m, c in t.args[0]:
            e = iconst(c)
            for x in m:
                if x.op == "wrap" and x.args[0].bits >= ity.bits:
                    changed = True
                    x = x.args[1]
                e = mul(e, x)
            acc = add(acc, e)
        if changed:
            return wrap(ity, acc)
    return mk("wrap", (ity, t))


def bitop(k, a, b):
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        return iconst(x & y if k == "and" else x | y if k == "or" else x ^ y)
    for x, y in ((a, b), (b, a)):
        if y.op == "int":
            n = y.args[0]
            if n == 0:
                return iconst(0) if k == "and" else x
            if k == "and" and n == 1 and x.op == "fn" and x.args[0] == "shr":
                return mod(x, iconst(2))
            if k == "and" and n > 0 and (n & (n + 1)) == 0 and rng(x)[0] >= 0:
                return mod(x, iconst(n + 1))
        if k == "and" and y.op == "pow" and y.args[0].op == "int" and y.args[0].args[0] == 2:
            return ite(bitat(x, y.args[1]), y, iconst(0))
    items = []
    for x in (a, b):
        if x.op == "bit" and x.args[0] == k:
            items += list(x.args[1])
        else:
            items.append(x)
    if k in ("and", "or"):
        items = list(dict.fromkeys(items))
    items.sort(key=lambda t: t.id)
    if len(items) == 1:
        return items[0]
    return mk("bit", (k, tuple(items)))


# ---------------------------------------------------------------- comparisons -> BDD
def ge0(p):
    """BDD of p >= 0"""
    from math import gcd
    lo, hi = rng(p)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    if p.op == "ite":
        return bite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    d = to_poly(p)
    s = split_ite(p, d)
    if s is not None:
        return bite(s[0], ge0(s[1]), ge0(s[2]))
    c0 = d.pop((), 0)
    if not d:
        return TRUE if c0 >= 0 else FALSE
    # floor(n/k) >= c  <=>  n >= k*c     (k > 0 constant)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0].op == "div" and m[0].args[1].op == "int":
            k = m[0].args[1].args[0]
            n = m[0].args[0]
            if c > 0:
                # c*f + c0 >= 0 <=> f >= ceil(-c0/c)
                thr = -((c0) // c) if c0 % c == 0 else -(c0 // c)
                thr = -(c0 // c)
                return ge0(sub(n, iconst(k * thr)))
            # -|c| f + c0 >= 0 <=> f <= floor(c0/|c|) <=> n < k*(floor+1)
            thr = c0 // (-c)
            return ge0(sub(iconst(k * (thr + 1) - 1), n))
    g = 0
    for c in d.values():
        g = gcd(g, c)
    d = {m: c // g for m, c in d.items()}
    c0 = c0 // g  # floor is exact for >=
    lead = max(d.items(), key=lambda x: (len(x[0]), tuple(a.id for a in x[0])))
    if lead[1] < 0:
        # p >= 0 <=> !(-p-1 >= 0)
        q = {m: -c for m, c in d.items()}
        q[()] = -c0 - 1
        return bnot(bvar(mk("ge0", (from_poly(q),))))
    d[()] = c0
    return bvar(mk("ge0", (from_poly(d),)))


def lt(a, b):
    return ge0(sub(sub(b, a), iconst(1)))


def le(a, b):
    return ge0(sub(b, a))


def eq0(p):
    lo, hi = rng(p)
    if lo > 0 or hi < 0:
        return FALSE
    if p.op == "int":
        return TRUE
    if p.op == "ite":
        return bite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == "bit" and p.args[0] == "or":
        its = p.args[1]
        # high limbs of one big integer are all zero <=> it is below the limb boundary
        if all(x.op == "limb" for x in its) and len(set(x.args[0] for x in its)) == 1:
            idx = sorted(x.args[1] for x in its)
            n = its[0].args[2]
            if idx == list(range(idx[0], n)):
                return bnot(ge0(sub(its[0].args[0], iconst(1 << (64 * idx[0])))))
        r = TRUE
        if all(rng(x)[0] >= 0 for x in its):
            for x in its:
                r = band(r, eq0(x))
            return r
    if p.op == "limb" and (p.args[1] == p.args[2] - 1 or rng(p.args[0])[1] < 1 << (64 * p.args[1] + 64)):
        return bnot(ge0(sub(p.args[0], iconst(1 << (64 * p.args[1])))))
    if lo == 0:
        return bnot(ge0(sub(p, iconst(1))))
    if hi == 0:
        return bnot(ge0(sub(neg(p), iconst(1))))
    d = to_poly(p)
    s = split_ite(p, d)
    if s is not None:
        return bite(s[0], eq0(s[1]), eq0(s[2]))
    from math import gcd
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    c0 = d.get((), 0)
    if g and c0 % g:
        return FALSE
    if g > 1:
        d = {m: c // g for m, c in d.items()}
    q = from_poly(d)
    return band(ge0(q), bnot(ge0(sub(q, iconst(1)))))


def split_ite(p, d=None):
    """p = ite(c, p1, p2) if some monomial of the polynomial contains a gated atom"""
    d = d if d is not None else to_poly(p)
    ites = []
    for m in d:
        for x in m:
            if x.op == "ite" and x not in ites:
                ites.append(x)
    if not ites or len(ites) > 8:
        return None
    c = min(ites, key=lambda x: x.id).args[0]
    out = []
    for pc in (c, bnot(c)):
        acc = iconst(0)
        for m, k in d.items():
            e = iconst(k)
            for x in m:
                e = mul(e, simp(x, pc))
            acc = add(acc, e)
        out.append(acc)
    return c, out[0], out[1]


# ---------------------------------------------------------------- booleans and ite
def boolt(b):
    return mk("bool", (b,), "bool")


def as_bdd(t):
    if t.op == "bool":
        return t.args[0]
    if t.op == "int":
        return TRUE if t.args[0] else FALSE
    if t.op == "ite":
        return bite(t.args[0], as_bdd(t.args[1]), as_bdd(t.args[2]))
    return bvar(mk("b", (t,)))


def ite(c, a, b):
    if c == TRUE or a is b:
        return a
    if c == FALSE:
        return b
    if a.op == "bool" or b.op == "bool":
        return boolt(bite(c, as_bdd(a), as_bdd(b)))
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args) == len(b.args):
        return agg(a.args[0], a.args[1], [ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])], a.ty)
    if a.op == "mset" and b.op == "mset" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return mk("mset", (a.args[0], a.args[1], ite(c, a.args[2], b.args[2])), a.ty)
    # eta for newtypes/structs: one side opaque of the same struct type
    if a.op == "agg" and b.op != "agg" and b.op != "ite" and STRUCT_FIELDS.get(b.ty) is not None and a.ty == b.ty and a.args[1] == 0:
        return ite(c, a, expand(b))
    if b.op == "agg" and a.op != "agg" and a.op != "ite" and STRUCT_FIELDS.get(a.ty) is not None and a.ty == b.ty and b.args[1] == 0:
        return ite(c, expand(a), b)
    # nested conditions
    if a.op == "ite":
        a2 = simp(a, c)
        if a2 is not a:
            return ite(c, a2, b)
    if b.op == "ite":
        b2 = simp(b, bnot(c))
        if b2 is not b:
            return ite(c, a, b2)
    # ite(c, ite(d,x,y), y) = ite(c&d, x, y) and friends
    if a.op == "ite":
        d, x, y = a.args
        if y is b:
            return ite(band(c, d), x, y)
        if x is b:
            return ite(band(c, bnot(d)), y, x)
    if b.op == "ite":
        d, x, y = b.args
        if x is a:
            return ite(bor(c, d), x, y)
        if y is a:
            return ite(bor(c, bnot(d)), a, x)
    # canonical polarity
    nc = bnot(c)
    if nc < c:
        c, a, b = nc, b, a
    return mk("ite", (c, a, b), a.ty if a.ty is not None else b.ty)


def simp(t, pc):
    """Simplify the outer ite structure of t under pc."""
    while t.op == "ite":
        c = t.args[0]
        if bimp(pc, c):
            t = t.args[1]
        elif band(pc, c) == FALSE:
            t = t.args[2]
        else:
            break
    return t


STRUCT_FIELDS = {}  # struct type name -> [field type names] (plain structs only)


def agg(name, variant, fields, ty=None):
    fields = tuple(fields)
    # eta: Struct{proj(t,0), proj(t,1)...} = t
    if fields and variant == 0 and name in STRUCT_FIELDS and len(STRUCT_FIELDS[name]) == len(fields):
        f0 = fields[0]
        if f0.op == "proj" and f0.args[0].ty == name:
            t = f0.args[0]
            if all(f.op == "proj" and f.args[0] is t and f.args[1] == 0 and f.args[2] == i for i, f in enumerate(fields)):
                return t
    return mk("agg", (name, variant) + fields, ty if ty is not None else name)


def expand(t):
    """View an opaque struct term as an aggregate of its projections (without eta collapse)."""
    fs = STRUCT_FIELDS[t.ty]
    return mk("agg", (t.ty, 0) + tuple(proj(t, 0, i, ft) for i, ft in enumerate(fs)), t.ty)


def proj(t, variant, i, ty=None):
    if t.op == "agg":
        if t.args[1] == variant and 2 + i < len(t.args):
            return t.args[2 + i]
        return mk("undef", (variant, i), ty)
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if a.op == "agg" and a.args[1] != variant:
            return proj(b, variant, i, ty)
        if b.op == "agg" and b.args[1] != variant:
            return proj(a, variant, i, ty)
        x, y = proj(a, variant, i, ty), proj(b, variant, i, ty)
        if x.op == "undef":
            return y
        if y.op == "undef":
            return x
        return ite(t.args[0], x, y)
    if t.op == "undef":
        return mk("undef", (variant, i), ty)
    return mk("proj", (t, variant, i), ty)


ENUM_VARIANTS = {}  # enum type name -> number of variants


def is_variant(t, v, n=None):
    """BDD: enum term t is variant v"""
    if t.op == "agg":
        return TRUE if t.args[1] == v else FALSE
    if t.op == "ite":
        return bite(t.args[0], is_variant(t.args[1], v, n), is_variant(t.args[2], v, n))
    if t.op == "undef":
        return FALSE
    if n is None:
        n = ENUM_VARIANTS.get(t.ty)
    if n == 1:
        return TRUE
    if n == 2:
        a = bvar(mk("is", (t, 1)))
        return a if v == 1 else bnot(a)
    if n is not None and v == n - 1:
        r = TRUE
        for i in range(n - 1):
            r = band(r, bnot(bvar(mk("is", (t, i)))))
        return r
    return bvar(mk("is", (t, v)))


ATOMIC_EQ = set()


def eq(a, b):
    """BDD of structural equality"""
    if a is b:
        return TRUE
    if a.op == "bool" or b.op == "bool":
        return bnot(bxor(as_bdd(a), as_bdd(b)))
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = band(r, eq(x, y))
            if r == FALSE:
                break
        return r
    if a.op == "ite":
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and y.op != "agg":
            if STRUCT_FIELDS.get(x.args[0]) is not None:
                r = TRUE
                for i, f in enumerate(x.args[2:]):
                    r = band(r, eq(f, proj(y, 0, i, STRUCT_FIELDS[x.args[0]][i])))
                return r
            if x.args[0] in ENUM_VARIANTS:
                r = is_variant(y, x.args[1], ENUM_VARIANTS[x.args[0]])
                for i, f in enumerate(x.args[2:]):
                    r = band(r, eq(f, proj(y, x.args[1], i, f.ty)))
                return r
    if a.ty in STRUCT_FIELDS and a.ty == b.ty and a.ty not in ATOMIC_EQ:
        r = TRUE
        for i, ft in enumerate(STRUCT_FIELDS[a.ty]):
            r = band(r, eq(proj(a, 0, i, ft), proj(b, 0, i, ft)))
        return r
    if numeric(a) and numeric(b):
        return eq0(sub(a, b))
    x, y = sorted((a, b), key=lambda t: t.id)
    return bvar(mk("eq", (x, y)))


BIG = {}  # names of big-uint types -> IntTy


def numeric(t):
    if t.op in ("int", "poly", "div", "tdiv", "wrap", "bit", "mul", "limb", "len", "pow"):
        return True
    if isinstance(t.ty, IntTy):
        return True
    if t.ty in INT_TYPES or t.ty in BIG or t.ty == "int":
        return True
    if t.op == "ite":
        return numeric(t.args[1]) and numeric(t.args[2])
    return False


# ---------------------------------------------------------------- maps
def mset(m, k, v):
    if m.op == "mset" and m.args[1] is k:
        m = m.args[0]
    elif m.op == "mdel" and m.args[1] is k:
        m = m.args[0]
    return mk("mset", (m, k, v), m.ty)


def mdel(m, k):
    if m.op in ("mset", "mdel") and m.args[1] is k:
        m = m.args[0]
    return mk("mdel", (m, k), m.ty)


def mhas(m, k):
    if m.op == "mset":
        e = eq(m.args[1], k)
        return TRUE if e == TRUE else bor(e, mhas(m.args[0], k))
    if m.op == "mdel":
        e = eq(m.args[1], k)
        return FALSE if e == TRUE else band(bnot(e), mhas(m.args[0], k))
    if m.op == "mempty":
        return FALSE
    if m.op == "ite":
        return bite(m.args[0], mhas(m.args[1], k), mhas(m.args[2], k))
    return bvar(mk("has", (m, k)))


def msel(m, k, ty=None):
    if m.op == "mset":
        e = eq(m.args[1], k)
        if e == TRUE:
            return m.args[2]
        if e == FALSE:
            return msel(m.args[0], k, ty)
        return ite(e, m.args[2], msel(m.args[0], k, ty))
    if m.op == "mdel":
        return msel(m.args[0], k, ty)
    if m.op == "ite":
        return ite(m.args[0], msel(m.args[1], k, ty), msel(m.args[2], k, ty))
    return mk("sel", (m, k), ty)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, int):
        return str(t)
    if not isinstance(t, T):
        if isinstance(t, IntTy):
            return t.name
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) if not isinstance(x, str) else x for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "#%d" % t.id
    o, a = t.op, t.args
    d = depth - 1
    if o == "int":
        return str(a[0])
    if o == "sym":
        return str(a[0])
    if o == "poly":
        parts = []
        for m, c in a[0]:
            if m == ():
                parts.append(str(c))
            else:
                s = "*".join(show(x, d) for x in m)
                parts.append(s if c == 1 else "-" + s if c == -1 else "%d*%s" % (c, s))
        return "(" + " + ".join(parts) + ")"
    if o == "agg":
        nm = str(a[0]).split("<")[0].split("::")[-1]
        return "%s.%s{%s}" % (nm, a[1], ", ".join(show(x, d) for x in a[2:]))
    if o == "proj":
        return "%s.%s%s" % (show(a[0], d), ("v%d." % a[1]) if a[1] else "", a[2])
    if o == "ite":
        return "ite(%s ? %s : %s)" % (bshow(a[0], d), show(a[1], d), show(a[2], d))
    if o == "bool":
        return bshow(a[0], d)
    if o == "fn":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(show(x, d) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d) if not isinstance(x, str) else x for x in a))


def bshow(f, depth=6, limit=12):
    if f == TRUE:
        return "true"
    if f == FALSE:
        return "false"
    lits = bliterals(f)
    parts = []
    cub = TRUE
    for v, p in lits.items():
        parts.append(("" if p else "!") + show(_atoms[v], depth - 1))
        cub = band(cub, _bmk(v, TRUE, FALSE) if p else _bmk(v, FALSE, TRUE))
    rest = brestrict(f, cub)
    if rest != TRUE:
        n = len(bsupport(rest))
        if n <= 3:
            v = _bvar[rest]
            parts.append("[%s ? %s : %s]" % (show(_atoms[v], depth - 1), bshow(_bhi[rest], depth - 1), bshow(_blo[rest], depth - 1)))
        else:
            parts.append("<bdd %d over %d atoms>" % (rest, n))
    return " & ".join(parts)
