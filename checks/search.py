"""Searching the tick bitmap: the nearest initialised tick in the direction of a trade, never a farther one.

A pool with tick spacing k has the positions 0 .. 2D, D = MAX_TICK / k; position p is bit p mod 64 of chunk p div 64 and stands for the
tick (p - D) * k.  Every supported spacing is analysed, for a generic start position p = 64 * A + B."""
from .trade import *
from eng.spec import fcall
from .mathspec import fn_of, frun, ranged, fl, MAX_TICK, boolv, succeeds, fn_where, equiv, TooHard
from eng.interp import St

RANGE, CHUNK = 256, 64


class Search:
    def __init__(self, ctx, item, k, low, up, P=None):
        P = P or ctx.P
        self.k, self.D, self.up = k, MAX_TICK // k, up
        f = fn_of(P, item)
        at = [P.tyname[f["locals"][i + 1]] for i in range(f["argc"])]
        A, Bt = ranged("A", 0, 2 * self.D // CHUNK), (iconst(0) if low else ranged("B", 1, CHUNK - 1))
        self.pos = t.add(t.mul(iconst(CHUNK), A), Bt)
        # upwards the search begins one position after the current tick
        q = t.sub(self.pos, iconst(self.D + (1 if up else 0)))
        self.pre = band(gt(self.pos, 0) if up else TRUE, ge(2 * self.D + (1 if up else 0), self.pos))
        args = [t.mul(q, iconst(k)) if ty == "i32" else iconst(k) if ty == "u16" else generic(P, ty, "p%d" % i).t for i, ty in enumerate(at)]
        self.r = r = spec.Run(P, f, args=args, opaque=lambda fi: False, st=St(self.pre, {}))
        ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
        self.x = r.exit
        self.leaf = {}
        lim = t.add(self.pos, iconst(RANGE - 1)) if up else t.sub(self.pos, iconst(RANGE))
        self.lim = ite(ge(2 * self.D, lim), lim, iconst(2 * self.D)) if up else ite(ge(lim, 0), lim, iconst(0))
        self.key = [a for a in r.args if a._ty.endswith("::PoolKey")]

    def marks(self, c):
        """the word of marks of chunk c, absent chunks having none"""
        r = self.r
        P = r.P
        ty = P.tyname[P.types[r.f["locals"][1]]["to"]]
        tm = V(P, t.mk("deref", (r.args[0].t, 0), ty), ty)
        m = tm.bitmap
        # the exchange keys its words by chunk and pool, the SDK's copy of one pool by chunk alone
        k = m.key(V(P, c, "u16"), *self.key) if self.key else c
        return ite(m.has(k), m.at(k).n, iconst(0))

    def proves(self, pc, cond):
        """cond holds whenever pc, for the bounds established so far"""
        W = Rewriter(leaf=self.leaf, interp=self.r.I)
        p = W.b(band(pc, self.pre), TRUE)
        b = [4000]
        try:
            ok = equiv(ite(W.b(cond, TRUE), iconst(1), iconst(0)), iconst(1), p, self.r.R, b)
        except TooHard:
            ok = False
        self.why = "" if ok or len(b) < 2 else t.bshow(b[1][2], 5)[:600]
        return ok

    def eq(self, pc, a, b):
        a, b = n_(a), n_(b)
        W = Rewriter(leaf=self.leaf, interp=self.r.I)
        try:
            return equiv(W(a, TRUE), W(b, TRUE), W.b(band(pc, self.pre), TRUE), self.r.R, [4000])
        except TooHard:
            return False


def odd(x):
    return t.eq0(t.sub(t.sub(x, t.mul(iconst(2), t.div(x, iconst(2)))), iconst(1)))


def pw(b):
    return t.mk("pow", (iconst(2), b)) if b.op != "int" else iconst(1 << b.args[0])


def shr(v, b):
    return v if b.op == "int" and b.args[0] == 0 else t.mk("fn", ("shr", v, b))


def steps(s, L, b, by):
    """the counter goes on by `by`.  It stays within the word: the scan begins below the word's size with a mark ahead of it and ends at the first mark,
    so that a counter of any width does not wrap."""
    n = L.next(b)
    if n.op == "wrap":
        n = n.args[1]
    return L.back.same(n, t.add(b, iconst(by)))


def scans(s, L):
    """(bit counter, where it begins, the word, the condition under which the bit is marked) of a loop over the bits of one word"""
    out = []
    nums = [p for p in L.carried() if t.numeric(p)]
    for b in nums:
        for w in nums:
            if w is b:
                continue
            f = L.first(w)
            if s.up and L.next(w) is t.div(w, iconst(2)) and steps(s, L, b, 1) and L.back.implies(bnot(odd(w))):
                # the word is shifted down until its lowest bit is set
                out.append((b, L.first(b), w, odd(w)))
            if not s.up and L.next(w) is t.div(w, iconst(2)) and steps(s, L, b, -1):
                out.append((b, L.first(b), w, None))
    return out


def search(ctx, item, up, k, low, P=None):
    """all obligations of one search at one spacing; the reason of the first one that fails"""
    s = Search(ctx, item, k, low, up, P)
    r = s.r
    Ls = [Loop(r, lid) for lid, li in r.I.loopinfo.items() if li["back"] is not None]
    why = ["the loop over the chunks was not found"]
    for L in Ls:
        for c in [p for p in L.carried() if t.numeric(p)]:
            # a bit that begins and goes on the same is no state of the loop
            for b in [p for p in L.carried() if t.numeric(p) and p is not c] + [iconst(0 if up else CHUNK - 1)]:
                s.leaf = {}
                w = attempt(s, L, c, b, [M for M in Ls if M is not L])
                if w is None:
                    return None
                why.append(w)
    return max(why, key=lambda w: w[0].isdigit() and int(w[0]) or 0)


def attempt(s, L, c, b, inner_loops):
    r, up = s.r, s.up
    at = lambda c, b: t.add(t.mul(iconst(CHUNK), c), b)
    E, K = L.entry.st.pc, L.back.st.pc
    if not (s.eq(E, at(L.first(c), L.first(b)), s.pos) and s.proves(E, band(ge(L.first(b), 0), gt(CHUNK, L.first(b))))):
        return "1 the walk does not begin at the current position"
    if not (s.eq(K, L.next(c), t.add(c, iconst(1 if up else -1))) and s.eq(K, L.next(b), iconst(0 if up else CHUNK - 1))):
        return "2 the walk does not go on with the adjacent chunk"
    if not s.proves(TRUE, bor(E, gt(s.pos, 2 * s.D) if up else FALSE)):
        return "2 the search cannot begin at every position: " + s.why
    # from here on the bit is known to lie in 0 .. 63 and the chunk in the pool's range
    bz, cz = ranged("BIT", 0, CHUNK - 1), ranged("CHUNK", 0, 65535)
    s.leaf = {b: bz, c: cz} if b.op != "int" else {c: cz}
    bz = bz if b.op != "int" else b
    v = s.marks(c)
    rest = shr(v, b) if up else t.sub(v, t.mul(t.mul(iconst(2), pw(b)), t.div(v, t.mul(iconst(2), pw(b)))))
    if not s.proves(K, bnot(ge(rest, 1))):
        return "3 a chunk with marks is passed over"
    beyond = gt(at(c, b), s.lim) if up else gt(s.lim, at(c, b))
    if not s.proves(K, bnot(beyond)):
        return "4 the walk goes on beyond the limit: " + s.why
    # nothing within the limit is left behind a chunk without marks
    last = band(bnot(ge(rest, 1)), gt(at(c, iconst(CHUNK)), s.lim) if up else ge(s.lim, at(c, iconst(0))))
    # the bit reported
    found = []
    for M in inner_loops:
        for d, first, word, ok in scans(s, M):
            if not s.eq(M.entry.st.pc, first, b):
                continue
            if up:
                if not s.eq(M.entry.st.pc, M.first(word), rest) or not s.proves(M.entry.st.pc, ge(rest, 1)):
                    continue
            else:
                if not s.eq(M.entry.st.pc, M.first(word), pw(b)) or not s.proves(M.entry.st.pc, ge(rest, 1)):
                    continue
                ok = ge(t.bitop("and", v, word), 1)
                if not s.proves(M.back.st.pc, bnot(ok)):
                    continue
            found.append((d, ok))
    if not found:
        return "5 the first marked bit of a chunk is not looked for"
    x = s.x
    H = L.head.st.pc
    if not s.proves(H, bor(K, x.st.pc, *[M.entry.st.pc for M in inner_loops])):
        return "5 the search is given up: " + s.why
    for d, ok in found:
        keep = dict(s.leaf)
        # the first mark of a chunk that has one lies between the start and the end of the chunk
        e = ranged("OFF", 0, CHUNK - 1)
        s.leaf[d] = t.add(bz, e) if up else t.sub(bz, e)
        dz = s.leaf[d]
        # ... so at the chunk's last bit it has been found
        inside = band(ge(dz, 0), gt(CHUNK, dz), bor(bnot(iseq(dz, CHUNK - 1 if up else 0)), ok))
        X = band(x.st.pc, inside)
        some = t.is_variant(x.rawret, 1, 2)
        val = proj(x.rawret, 1, 0, "i32")
        far = gt(at(c, d), s.lim) if up else gt(s.lim, at(c, d))
        began = bnot(gt(s.pos, 2 * s.D)) if up else TRUE
        res = None
        if not s.proves(band(X, some), band(began, ok, bnot(far))):
            res = "6 an unmarked or too distant position is reported: " + s.why
        elif not s.eq(band(X, some), val, t.mul(t.sub(at(c, d), iconst(s.D)), iconst(s.k))):
            res = "7 the reported tick is not the marked position's"
        elif not s.proves(band(X, bnot(some)), bor(bnot(began), beyond, last, band(ok, far))):
            res = "8 nothing is reported although the limit is not reached: " + s.why
        if res is None:
            return None
        s.leaf = keep
    return res


def spec_search(ctx, P=None, tag=""):
    for item, up, what in (("next_initialized", True, "upwards"), ("prev_initialized", False, "downwards")):
        for k in range(1, 101):
            for low in (False, True):
                def go():
                    w = search(ctx, item, up, k, low, P)
                    why.append(w)
                    return w is None
                why = []
                ctx.ob(tag + "search %s, spacing %d%s" % (what, k, ", from the first bit of a chunk" if low else ""), go, lambda: str(why[-1:]), item)


def spec_closer(ctx, P=None, tag=""):
    """the next target of a trade: the nearest marked tick or the end of the search range, or the trade's limit if that comes first"""
    P = P or ctx.P
    f = fn_of(P, "get_closer_limit")
    at = [P.tyname[f["locals"][i + 1]] for i in range(f["argc"])]
    q, k = ranged("Q", -MAX_TICK, MAX_TICK), ranged("SP", 1, 100)
    args = [t.mul(q, k) if ty == "i32" else k if ty == "u16" else generic(P, ty, "p%d" % i).t for i, ty in enumerate(at)]
    r = spec.Run(P, f, args=args, opaque=lambda fi: fi["item"] in ("next_initialized", "prev_initialized", "calculate_sqrt_price"))
    ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
    x, w = r.exit, fn_where(r)
    me, limit, xy, now_, s = r.args[:5]
    key = [a.t for a in r.args[5:]]
    xy = B(xy)
    me = V(P, t.mk("at", (t.mk("deref", (me.t, 0), P.tyname[P.types[f["locals"][1]]["to"]]),)), me._ty)
    st = St(TRUE, {})
    dn = fcall(r.P, r.I, "prev_initialized", [me.t, now_.t, s.t] + key, st=st)
    up = fcall(r.P, r.I, "next_initialized", [me.t, now_.t, s.t] + key, st=st)
    found = bor(band(xy, opt_ok(dn)), band(bnot(xy), opt_ok(up)))
    tick_ = ite(xy, dn.var(1).n, up.var(1).n)
    i, M = t.tdiv(now_.n, s.n), iconst(MAX_TICK)
    lo, hi = t.sub(i, iconst(RANGE)), t.add(i, iconst(RANGE))
    mn, mx = t.tdiv(t.neg(M), s.n), t.tdiv(M, s.n)
    end = t.mul(ite(xy, ite(ge(lo, mn), lo, mn), ite(ge(hi, mx), mx, hi)), s.n)
    target = ite(found, tick_, end)
    price = fcall(r.P, r.I, "calculate_sqrt_price", [target], st=st)
    pv = price.var(0).n
    first = bor(band(xy, gt(pv, limit)), band(bnot(xy), gt(limit, pv)))
    ok = x.ret.ok()
    res = x.ret.var(0)
    sane = ge(s, 1)
    ctx.same(tag + "next target: none is left exactly at the end of the supported ticks", x, boolv(ok), boolv(bor(found, bnot(iseq(now_, target)))), sane, w, "whether there is a next target")
    ctx.same(tag + "next target: price", x, res.fld("0").n, ite(first, pv, limit.n), band(ok, sane), w, "price of the next target")
    o = res.fld("1")
    ctx.same(tag + "next target: a tick exactly when it comes before the limit", x, boolv(opt_ok(o)), boolv(first), band(ok, sane), w, "whether a tick is targeted")
    ctx.same(tag + "next target: tick", x, o.var(1).fld("0").n, target, band(ok, first, sane), w, "targeted tick")
    ctx.same(tag + "next target: marked", x, boolv(B(o.var(1).fld("1"))), boolv(found), band(ok, first, sane), w, "whether the targeted tick is marked")
