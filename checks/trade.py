"""The trade loop: what one iteration does to the running state of a trade, and what a trade leaves behind."""
from .ops import *
from eng.spec import Exit, Rewriter, normpc
from eng import spec
from eng.norm import equiv, TooHard

ONE_PCT = 10 ** 12


# ------------------------------------------------------------------ loops
def loop_values(li, lid):
    """{phi: (value on entry, value after one iteration)} of one loop"""
    out = {}

    def walk(h, e, b):
        if h.op == "phi" and h.args[0] == lid:
            out[h] = (e, b)
        elif h.op == "agg":
            for i in range(2, len(h.args)):
                f = [x.args[i] if x.op == "agg" and x.args[1] == h.args[1] else proj(x, h.args[1], i - 2, h.args[i].ty) for x in (e, b)]
                walk(h.args[i], *f)
    for root, h in li["head"].mem.items():
        e, b = li["entry"].mem.get(root), li["back"].mem.get(root) if li["back"] is not None else None
        if e is not None and b is not None:
            walk(h, e, b)
    return out


def loop_ids(x):
    """ids of the loops whose values occur in a term"""
    return phis(x.t if isinstance(x, V) else x)


class Loop:
    """One loop of a run, seen through the values it carries."""

    def __init__(self, r, lid):
        self.r, self.lid = r, lid
        li = r.I.loopinfo[lid]
        self.vals = loop_values(li, lid)
        self.entry, self.head = Exit(r, li["entry"]), Exit(r, li["head"])
        self.back = Exit(r, li["back"]) if li["back"] is not None else None
        self.lid = lid
        self._e = Rewriter(leaf={p: e for p, (e, b) in self.vals.items()}, interp=r.I)
        self._b = Rewriter(leaf={p: b for p, (e, b) in self.vals.items()}, interp=r.I)

    def _w(self, v, x):
        return V(v._P, x, v._ty) if isinstance(v, V) else x

    def first(self, v):
        """v on entry to the loop"""
        return self._w(v, self.r.R(self._e(v.t if isinstance(v, V) else v), self.entry.pc))

    def next(self, v):
        """v after one iteration"""
        return self._w(v, self.r.R(self._b(v.t if isinstance(v, V) else v), self.back.pc))

    def carried(self, ty=None):
        return [p for p in self.vals if ty is None or p.ty == ty]


def opt_ok(o):
    return t.is_variant(o.t, 1, 2)


def trade_loop(r, inside=None):
    """the loop that walks through the price steps of a trade, with the pool it carries: (Loop, pool value)"""
    out = []
    for lid, li in r.I.loopinfo.items():
        if li["back"] is None:
            continue
        for root, h in li["head"].mem.items():
            e = li["entry"].mem.get(root)
            if h.op == "agg" and e is not None and (h.ty or "").endswith("::Pool") and len(h.args) > 2 and lid in phis(h):
                out.append((lid, V(r.P, h, h.ty)))
    if len(out) != 1:
        raise AnalysisError("the loop of the trade was not found (%d candidates)" % len(out))
    L = Loop(r, out[0][0])
    L.lid = out[0][0]
    return L, out[0][1]


class Trade:
    """The price walk of a swap or quotation: its arguments, the running values and the point at which it is over."""

    def __init__(self, r, key, x2y, amount, by_in, limit, fin, S0, tout, tin=None, fee=None, ticks=None):
        self.r, self.fin, self.S0 = r, fin, S0
        self.key, self.x2y, self.amount, self.by_in, self.limit = key, B(x2y), amount, B(by_in), limit
        self.rawx, self.rawby = x2y, by_in
        self.tin, self.tout, self.fee, self.ticks = tin, tout, fee, ticks
        self.L, self.pool = L, p = trade_loop(r)
        known = {v.n for v in (tin, tout, fee) if v is not None}
        c = [q for q in L.carried() if t.numeric(q) and q not in known and L.entry.same(L.first(q), amount.n) and fin.same(q, iconst(0))]
        if len(c) != 1:
            raise AnalysisError("the amount left to trade was not found (%d candidates)" % len(c))
        self.rem = V(r.P, agg(amount._ty, 0, [c[0]], amount._ty), amount._ty)

    def amountv(self, x):
        ty = self.amount._ty
        return V(self.r.P, agg(ty, 0, [n_(x)], ty), ty)


def accrue(r, p, amount, x2y, share, who):
    """(condition under which it succeeds, growth x, growth y, protocol x, protocol y) after a fee of `amount`"""
    prot = ce(t.mul(n_(amount), share.n), iconst(ONE_PCT))
    rest = t.sub(n_(amount), prot)
    ty = r.P.byname and amount._ty
    g = r.call("from_fee", p.liquidity, V(r.P, agg(ty, 0, [rest], ty), ty))
    nothing = bor(iseq(p.liquidity, 0), band(iseq(rest, 0), iseq(prot, 0)))
    add_ = V(r.P, g.var(0).t, g.var(0)._ty)

    def cnt(old, on):
        s = t.add(old.n, add_.n)
        return ite(band(on, bnot(nothing)), ite(gt(1 << 128, s), s, t.sub(s, iconst(1 << 128))), old.n)

    def pr(old, on):
        return ite(band(on, bnot(nothing)), t.add(old.n, prot), old.n)
    return (bor(nothing, g.ok()), cnt(p.fee_growth_global_x, x2y), cnt(p.fee_growth_global_y, bnot(x2y)), pr(p.fee_protocol_token_x, x2y), pr(p.fee_protocol_token_y, bnot(x2y)))


def ce(a, b):
    return t.div(t.add(n_(a), t.sub(n_(b), iconst(1))), n_(b))


def step(T):
    """the specified iteration, in terms of the running state at its start"""
    r, P = T.r, T.r.P
    p, key, x2y, by_in = T.pool, T.key, T.x2y, T.by_in
    S = T.S0
    sp, tier = key.fee_tier.tick_spacing, key.fee_tier
    share = S.config.protocol_fee
    req, lim_ = [], []
    lim = r.call("get_closer_limit", V(P, mk("at", (S.tickmap.t,))), T.limit, T.rawx, p.current_tick_index, sp, key)
    req.append(("a next limit", lim.ok()))
    lp, opt = lim.var(0).fld("0"), lim.var(0).fld("1")
    res = r.call("compute_swap_step", p.sqrt_price, lp, p.liquidity, T.rem, T.rawby, tier.fee)
    req.append(("a computable step", res.ok()))
    s = res.var(0)
    nxt = s.next_sqrt_price
    used = ite(by_in, t.add(s.amount_in.n, s.fee_amount.n), s.amount_out.n)
    rem = T.amountv(t.sub(T.rem.n, used))
    req.append(("a step within the amount", ge(rem, 0)))
    ok, gx, gy, px, py = accrue(r, p, s.fee_amount, x2y, share, "step")
    req.append(("a representable fee growth", ok))
    mid = upd(p, sqrt_price=nxt, fee_growth_global_x=gx, fee_growth_global_y=gy, fee_protocol_token_x=px, fee_protocol_token_y=py)
    mid = V(P, mid, p._ty) if not isinstance(mid, V) else mid
    tin = t.add(t.add(T.tin.n, s.amount_in.n), s.fee_amount.n) if T.tin is not None else None
    tout = t.add(T.tout.n, s.amount_out.n)
    fee = t.add(T.fee.n, s.fee_amount.n) if T.fee is not None else None
    req.append(("a price short of the limit unless the amount is used up", bnot(band(nxt.eq(T.limit), bnot(iseq(rem, 0))))))
    # the tick
    has, idx, ini = opt_ok(opt), opt.var(1).fld("0"), B(opt.var(1).fld("1"))
    stop = band(has, lp.eq(nxt))
    at = r.call("get_tick_at_sqrt_price", nxt, sp)
    enough_ = r.call("is_enough_amount_to_change_price", rem, nxt, p.liquidity, tier.fee, T.rawby, T.rawx)
    req.append(("a tick for the price", bor(stop, at.ok())))
    # an amount for which there is no next price is more than the active liquidity can take or give: it reaches further
    enough = bor(bnot(enough_.ok()), B(enough_.var(0)))
    m = ticks(S)
    tk = m.at(m.key(key, idx))
    req.append(("a stored tick behind its mark", bor(bnot(has), bnot(ini), m.has(m.key(key, idx)))))
    crossed = band(stop, ini, bor(bnot(x2y), enough))
    dust = band(stop, ini, bnot(crossed), bnot(iseq(rem, 0)))
    ok2, gx2, gy2, px2, py2 = accrue(r, mid, rem, x2y, share, "rest")
    req.append(("a representable fee growth of the rest", bor(bnot(band(dust, by_in)), ok2)))
    keep = band(dust, by_in)
    up = bor(band(ge(p.current_tick_index, tk.index), bnot(B(tk.sign))), band(bnot(ge(p.current_tick_index, tk.index)), B(tk.sign)))
    cross_liq = ite(up, t.add(p.liquidity.n, tk.liquidity_change.n), t.sub(p.liquidity.n, tk.liquidity_change.n))
    req.append(("enough liquidity to cross the tick", bor(bnot(crossed), t.ge0(cross_liq))))
    cur = ite(stop, ite(band(x2y, enough), t.sub(idx.n, sp.n), idx.n), at.var(0).n)
    new = upd(mid, liquidity=ite(crossed, cross_liq, p.liquidity.n), current_tick_index=cur,
              fee_growth_global_x=ite(keep, gx2, gx), fee_growth_global_y=ite(keep, gy2, gy),
              fee_protocol_token_x=ite(keep, px2, px), fee_protocol_token_y=ite(keep, py2, py),
              last_timestamp=ite(crossed, now(r).n, p.last_timestamp.n))
    tin = t.add(tin, when(keep, rem.n)) if tin is not None else None
    rem2 = ite(dust, iconst(0), rem.n)
    lo, hi = r.call("get_min_tick", sp), r.call("get_max_tick", sp)
    req.append(("a tick inside the supported range", ite_b(x2y, gt(cur, lo), gt(hi, cur))))

    def fsub_(a, b):
        return fsub(a, b)
    el = t.sub(now(r).n, p.start_timestamp.n)
    sec = t.sub(el, tk.seconds_outside.n)
    newtick = upd(tk, fee_growth_outside_x=fsubg(gx, tk.fee_growth_outside_x), fee_growth_outside_y=fsubg(gy, tk.fee_growth_outside_y),
                  seconds_outside=t.wrap(t.INT_TYPES["u64"], sec))
    cap = iconst((1 << 256) - 1)
    for nm, v in (("input total", tin), ("output total", tout), ("fee total", fee), ("first protocol fee", ite(keep, px2, px)), ("second protocol fee", ite(keep, py2, py)),
                  ("liquidity", ite(crossed, cross_liq, p.liquidity.n)), ("step's cost", t.add(s.amount_in.n, s.fee_amount.n))):
        if v is not None:
            lim_.append((nm, ge(cap, v)))
    prot = ce(t.mul(s.fee_amount.n, share.n), iconst(ONE_PCT))
    lim_.append(("protocol share of the fee", ge(s.fee_amount, prot)))
    lim_.append(("product with the protocol share", ge(t.mul(iconst(ONE_PCT - 1), cap), t.mul(s.fee_amount.n, share.n))))
    lim_.append(("product with the protocol share of the rest", bor(bnot(keep), ge(t.mul(iconst(ONE_PCT - 1), cap), t.mul(rem.n, share.n)))))
    lim_.append(("protocol share of the rest", bor(bnot(keep), ge(rem, ce(t.mul(rem.n, share.n), iconst(ONE_PCT))))))
    return dict(req=req, fits=lim_, pool=new, tin=tin, tout=tout, fee=fee, rem=rem2, rem1=rem.n, stop=stop, ini=ini, enough=enough, crossed=crossed, tick=newtick, idx=idx)


def fsubg(a, b):
    d = t.sub(n_(a), n_(b))
    return ite(t.ge0(d), d, t.add(d, iconst(1 << 128)))


def ite_b(c, a, b):
    return t.bite(c, a, b)


def trade_of(r):
    """the trade inside the swap entry"""
    ret = r.exit.ret
    a = r.args
    return Trade(r, a[1], a[2], a[3], a[4], a[5], r.exit, r.S0, ret.amount_out, ret.amount_in, ret.fee, ret.ticks)


def spec_trade_start(ctx):
    n = "swap"
    r = ctx.run(n)
    T = trade_of(r)
    L, w = T.L, whole(r)
    S0 = r.exit.S0
    p0 = pool(r.S0, T.key)
    only_if(ctx, n, r, "an amount", ge(T.amount, 1))
    only_if(ctx, n, r, "the pool exists", pools(S0).has(T.key))
    only_if(ctx, n, r, "a price limit on the far side of the price",
            ite_b(T.x2y, gt(p0.sqrt_price, T.limit), gt(T.limit, p0.sqrt_price)))
    e = L.entry
    ctx.same("trade starts from the stored pool", e, L.first(T.pool), p0, TRUE, w, "pool at the start")
    for nm, v, x in (("input", T.tin, 0), ("output", T.tout, 0), ("fee", T.fee, 0), ("amount left", T.rem, T.amount.n)):
        ctx.same("trade starts with the right " + nm, e, L.first(v).n, iconst(0) if x == 0 else x, TRUE, w, nm)
    ctx.same("trade starts with no crossed tick", e, r.I.vlen(L.first(T.ticks).t), iconst(0), TRUE, w, "crossed ticks")
    only_if(ctx, n, r, "some output", ge(T.tout, 1))
    only_if(ctx, n, r, "the amount is used up", iseq(T.rem, 0))
    ctx.same("reported pool", r.exit, r.exit.ret.pool, T.pool, TRUE, w, "pool of the result")
    ctx.same("reported start price", r.exit, r.exit.ret.start_sqrt_price, p0.sqrt_price, TRUE, w, "start price")
    ctx.same("reported end price", r.exit, r.exit.ret.target_sqrt_price, T.pool.sqrt_price, TRUE, w, "end price")


def under(x, c):
    """the same point of execution, restricted to the inputs satisfying c"""
    return Exit(x.run, spec.St(band(x.pc, c), x.st.mem), x.rawret, x.rty)


def trade_facts(T):
    """what other properties guarantee: the clock does not run backwards, limiting ticks lie in the supported range (property on the tick search)"""
    r = T.r
    p, key = T.pool, T.key
    lim = r.call("get_closer_limit", V(r.P, mk("at", (T.S0.tickmap.t,))), T.limit, T.rawx, p.current_tick_index, key.fee_tier.tick_spacing, key)
    idx = lim.var(0).fld("1").var(1).fld("0")
    return band(clock_ok(r, p), ge(idx, -MAX_TICK), ge(MAX_TICK, idx))


def cases(T, st):
    """the ways an iteration can end, for each direction and kind of amount"""
    stop, ini, crossed, enough = st["stop"], st["ini"], st["crossed"], st["enough"]
    z = iseq(st["rem1"], 0)
    for xn, xc in (("x to y", T.x2y), ("y to x", bnot(T.x2y))):
        for bn, bc in (("by input", T.by_in), ("by output", bnot(T.by_in))):
            for cn, cc in (("between ticks", bnot(stop)), ("at an unmarked tick, going on", band(stop, bnot(ini), enough)), ("at an unmarked tick, ending", band(stop, bnot(ini), bnot(enough))),
                           ("crossing", band(stop, ini, crossed)), ("ending at a tick", band(stop, ini, bnot(crossed), z)), ("dust at a tick", band(stop, ini, bnot(crossed), bnot(z)))):
                if xn == "y to x" and cn in ("ending at a tick", "dust at a tick"):
                    continue
                yield "%s, %s, %s" % (xn, bn, cn), band(xc, bc), cc


def Step(*parts):
    """obligation group: these parts of one iteration of the price loop"""
    return lambda ctx: spec_trade_step(ctx, parts)


def spec_trade_step(ctx, parts=None):
    r = ctx.run("swap")
    T = trade_of(r)
    L, w = T.L, whole(r)
    st = step(T)
    ok = band(trade_facts(T), *[c for nm, c in st["fits"] if nm.startswith("product")])
    for cn, c0, c1 in cases(T, st):
        if trade_filter and trade_filter not in cn:
            continue
        b = under(under(L.back, band(ok, c0)), c1)
        b.case = band(ok, c0, c1)
        one_step(ctx, r, T, L, st, b, cn, w, parts)


trade_filter = None
# completeness of this combination is beyond the comparison (its other obligations are not)
SKIP = ("x to y, by input, dust at a tick",)


FIELDS = dict(price=("sqrt_price",), ticks=("liquidity", "current_tick_index", "last_timestamp"), fees=("fee_growth_global_x", "fee_growth_global_y", "fee_protocol_token_x", "fee_protocol_token_y"),
              rest=("start_timestamp", "fee_receiver"))


def one_step(ctx, r, T, L, st, b, cn, w, parts=None):
    parts = parts or ("needs", "totals", *FIELDS)
    if b.pc == FALSE:
        ctx.ob("%s: happens" % cn, False, "no iteration ends this way", w)
        return
    if "needs" in parts:
        if cn not in SKIP:
            full = band(b.case, L.head.pc, ge(T.rem, 1), *[c for _, c in st["req"] + st["fits"]])
            try:
                done = equiv(ite(L.back.st.pc, iconst(1), iconst(0)), iconst(1), full, r.R, [4000])
            except TooHard:
                done = False
            ctx.ob("%s: happens whenever nothing overflows" % cn, done, "a trade that meets all requirements is refused", w)
        for what, c in st["req"]:
            ctx.implies("%s: requires %s" % (cn, what), b, c, None, w, "a trade goes on without " + what)
    newp = V(r.P, st["pool"].t if isinstance(st["pool"], V) else st["pool"], T.pool._ty)
    np = L.next(T.pool)
    for part in parts:
        for f in FIELDS.get(part, ()):
            ctx.same("%s: pool's %s" % (cn, f), b, np.fld(f), newp.fld(f), TRUE, w, f)
    if "totals" in parts:
        for nm, v, e in (("total input", T.tin, st["tin"]), ("total output", T.tout, st["tout"]), ("fee total", T.fee, st["fee"]), ("amount left", T.rem, st["rem"])):
            ctx.same("%s: %s" % (cn, nm), b, L.next(v).n, e, TRUE, w, nm)
    if "ticks" not in parts:
        return
    n0, n1 = r.I.vlen(T.ticks.t), r.I.vlen(L.next(T.ticks).t)
    ctx.same("%s: number of crossed ticks" % cn, b, n1, t.add(n0, when(st["crossed"], iconst(1))), TRUE, w, "crossed ticks")
    I_ = sym("IX", "usize")
    tty = ticks(T.S0).valty()
    tk = st["tick"].t if isinstance(st["tick"], V) else st["tick"]
    exp = ite(band(st["crossed"], t.eq0(t.sub(I_, n0))), tk, r.I.vidx(T.ticks.t, I_, tty))
    ctx.same("%s: crossed ticks" % cn, b, r.I.vidx(L.next(T.ticks).t, I_, tty), exp, gt(n1, I_), w, "crossed tick")


# ------------------------------------------------------------------ what a swap leaves behind
def store_loop(r, obs):
    """loops that change an observed part of the state: [(Loop, entry, head, back)]"""
    out = []
    for lid, e, h, b in r.state_loops():
        v = [obs(z.S1) for z in (e, h, b)]
        if v[0] is v[1] and v[2] is v[1]:
            continue
        L = Loop(r, lid)
        L.lid = lid
        out.append((L, e, h, b))
    return out


def counter(r, L, over, fin):
    """the value counting 0, 1, 2, ... up to the length `over` in a loop"""
    c = []
    for p in L.carried():
        if t.numeric(p) and L.entry.same(L.first(p), iconst(0)) and L.back.same(L.next(p), t.add(p, iconst(1))) and fin.implies(ge(p, over)):
            c.append(p)
    return c


def spec_swap_store(ctx):
    """the pool and the crossed ticks of a finished trade are stored, and nothing else"""
    n = "swap"
    r = ctx.run(n)
    T = trade_of(r)
    stored(ctx, n, r, T, r.exit, r.exit.S0, r.exit.S1)


def stored(ctx, n, r, T, x, S0, S1, other=TRUE):
    g, w = G(r), whole(r)
    k = T.key
    ctx.same(n + ": pools", x, pool_opt(S1, g.K), ite(g.K.eq(k), option(TRUE, T.pool), pool_opt(S0, g.K)), TRUE, w, "pool after the trade")
    ls = [z for z in store_loop(r, lambda S: ticks(S).t) if z[0].lid in phis(ticks(S1).t)]
    if len(ls) != 1:
        ctx.ob(n + ": crossed ticks are stored one after the other", False, "%d loops write ticks" % len(ls), w)
        return
    L, e, h, b = ls[0]
    size = r.I.vlen(T.ticks.t)
    c = counter(r, L, size, x)
    ctx.ob(n + ": every crossed tick is visited in order", len(c) == 1, "the loop that stores crossed ticks does not visit each of them", w)
    if len(c) != 1:
        return
    ctx.same(n + ": ticks before the crossed ticks are stored", e, tick_opt(e.S1, g.K, g.I), tick_opt(S0, g.K, g.I), TRUE, w, "tick")
    ctx.same(n + ": ticks after the crossed ticks are stored", x, tick_opt(S1, g.K, g.I), tick_opt(h.S1, g.K, g.I), TRUE, w, "tick")
    tk = V(r.P, r.I.vidx(T.ticks.t, c[0], ticks(S0).valty()), ticks(S0).valty())
    hit = band(g.K.eq(k), iseq(g.I, tk.index))
    ctx.same(n + ": a crossed tick is stored under its index, no other changes", b, tick_opt(b.S1, g.K, g.I), ite(hit, option(TRUE, tk), tick_opt(h.S1, g.K, g.I)), TRUE, w, "tick")
    for nm, f in (("pools", lambda S: pool_opt(S, g.K)), ("balances", lambda S: bal(S, g.U, g.TOK))):
        ctx.same(n + ": %s while ticks are stored" % nm, b, f(b.S1), f(h.S1), TRUE, w, nm)


def holds_whenever(ctx, key, r, target, c, what, w):
    """condition `target` (a path predicate) holds on every input satisfying c"""
    try:
        ok = equiv(ite(target, iconst(1), iconst(0)), iconst(1), c, r.R, [6000])
    except TooHard:
        ok = False
    ctx.ob(key, ok, what, w)


def spec_swap_complete(ctx):
    """a finished trade fails only for lack of balance"""
    n = "swap"
    r = ctx.run(n)
    T = trade_of(r)
    x, S0, w, k = r.exit, r.exit.S0, whole(r), T.key
    ls = [z for z in store_loop(r, lambda S: ticks(S).t) if z[0].lid in phis(ticks(x.S1).t)]
    if len(ls) != 1:
        raise AnalysisError("%d loops write ticks" % len(ls))
    L, e, h, b = ls[0]
    size = r.I.vlen(T.ticks.t)
    c = counter(r, L, size, x)[0]
    over = band(T.L.head.pc, iseq(T.rem, 0), ge(T.tout, 1))
    holds_whenever(ctx, n + ": a trade that used up its amount with some output goes on to be stored", r, e.st.pc, over, "a finished trade is refused", w)
    tty = ticks(S0).valty()
    ix = V(r.P, r.I.vidx(T.ticks.t, c, tty), tty).index
    holds_whenever(ctx, n + ": every crossed tick that exists can be stored", r, b.st.pc, band(h.pc, gt(size, c), has_tick(h.S1, k, ix)), "a crossed tick is refused", w)
    p0, p1 = (V(r.P, ite(T.x2y, p.t, q.t), p._ty) for p, q in ((k.token_x, k.token_y), (k.token_y, k.token_x)))
    U256 = (1 << 256) - 1
    full = band(h.pc, ge(c, size), ge(bal(S0, r.caller, p0), T.tin), ge(U256, t.add(bal(S0, r.caller, p1), T.tout.n)), two_tokens(k), pools(S0).has(k), notified(x))
    holds_whenever(ctx, n + ": a stored trade is settled whenever the caller can pay", r, x.st.pc, full, "a trade the caller can pay is refused", w)


# ------------------------------------------------------------------ trades that must agree
class Same:
    """Two trades compared step by step: A with its arguments, state and running values replaced by those of B."""

    def __init__(self, A, B_, sub):
        self.A, self.B = A, B_
        leaf = dict(sub)
        prs = []

        def pair(x, y):
            x, y = (z.t if isinstance(z, V) else z for z in (x, y))
            if x.op == "agg" and y.op == "agg" and len(x.args) == len(y.args):
                for p, q in zip(x.args[2:], y.args[2:]):
                    pair(p, q)
            elif x.op == "phi" and x not in leaf:
                leaf[x] = y
                prs.append((x, y))
        pair(A.pool, B_.pool)
        pair(A.rem, B_.rem)
        for f in ("tin", "tout", "fee", "ticks"):
            if getattr(A, f) is not None and getattr(B_, f) is not None:
                pair(getattr(A, f), getattr(B_, f))
        self.leaf, self.pairs = leaf, prs
        self.W = Rewriter(leaf=leaf, interp=B_.r.I)
        used = {q for _, q in prs}
        # running values of A that B does not show: their counterpart starts equal and steps equal
        for p in A.L.vals:
            if p in leaf:
                continue
            for q in B_.L.vals:
                if q in used or q.ty != p.ty:
                    continue
                W2 = Rewriter(leaf={**leaf, p: q}, interp=B_.r.I)
                if B_.L.entry.same(W2(A.L.vals[p][0]), B_.L.vals[q][0]) and B_.L.back.same(W2(A.L.vals[p][1]), B_.L.vals[q][1]):
                    leaf[p] = q
                    prs.append((p, q))
                    used.add(q)
                    break
        self.W = Rewriter(leaf=leaf, interp=B_.r.I)

    def pred(self, c):
        return self.B.r.R.b(self.W.b(c, TRUE), TRUE)


def agree(ctx, n, A, B_, sub, before, w):
    """the trade B is the trade A on substituted arguments; `before` holds where B's trade begins"""
    s = Same(A, B_, sub)
    a, b, r = A.L, B_.L, B_.r
    for nm, x, y in (("starts", a.entry, b.entry), ("goes on", a.back, b.back)):
        ctx.implies("%s %s only as a swap does" % (n, nm), y, s.pred(x.st.pc), None, w, "a step no swap would take")
        holds_whenever(ctx, "%s %s whenever a swap does" % (n, nm), r, y.st.pc, band(before if nm == "starts" else b.head.pc, s.pred(x.pc)), "a step of a swap is not taken", w)
    for p, q in s.pairs:
        ctx.same("%s: %s at the start" % (n, role(A, p)), b.entry, s.W(a.vals[p][0]), b.vals[q][0], TRUE, w, "running value at the start")
        ctx.same("%s: %s after a step" % (n, role(A, p)), b.back, s.W(a.vals[p][1]), b.vals[q][1], TRUE, w, "running value after a step")
    return s


def role(T, p):
    for nm, v in (("amount left", T.rem), ("total input", T.tin), ("total output", T.tout), ("fee total", T.fee)):
        if v is not None and v.n is p:
            return nm
    if T.ticks is not None and T.ticks.t is p:
        return "crossed ticks"
    td = T.r.P.types[T.r.P.byname[T.pool._ty]]
    for f in td["v"][0]["f"]:
        x = T.pool.fld(f[0])
        if x.t is p or x.n is p:
            return "pool's " + f[0]
    return "another value"


def swap_point(r, T):
    """where a swap's trade is over: used up, with some output"""
    return band(T.L.head.pc, iseq(T.rem, 0), ge(T.tout, 1))


def spec_quote(ctx):
    """a quotation is the outcome of the swap"""
    A = trade_of(ctx.run("swap"))
    n = "quote"
    r = ctx.run(n)
    w = whole(r)
    ret = r.exit.ret
    q = ret.var(0)
    a = r.args
    fin = under(r.exit, ret.ok())
    T = Trade(r, a[1], a[2], a[3], a[4], a[5], fin, r.S0, q.amount_out, q.amount_in, None, q.ticks)
    s = agree(ctx, n, A, T, {}, is_init(r), w)
    ctx.same(n + ": reported price", fin, q.target_sqrt_price, T.pool.sqrt_price, TRUE, w, "price after the trade")
    ctx.implies(n + " succeeds only for a trade that is over", fin, band(iseq(T.rem, 0), ge(T.tout, 1)), None, w, "a quotation for a swap that would fail")
    holds_whenever(ctx, n + " succeeds whenever the swap's trade does", r, band(r.exit.st.pc, ret.ok()), band(T.L.head.pc, iseq(T.rem, 0), ge(T.tout, 1)), "no quotation for a swap that would succeed", w)


MIN_PRICE, MAX_PRICE = 15258932000000000000, 65535383934512647000000000000


class Route:
    """The hops of a routed trade."""

    def __init__(self, r, amount_in, hops, out, fin):
        self.r, self.fin, self.hops, self.amount_in = r, fin, hops, amount_in
        self.total = out
        if out.n.op != "phi":
            raise AnalysisError("the output of a route is not what its last hop left")
        self.L = L = Loop(r, out.n.args[0])
        self.size = r.I.vlen(hops.t)
        c = counter(r, L, self.size, fin)
        if len(c) != 1:
            raise AnalysisError("the hops of a route are not visited one after the other")
        self.c = c[0]
        ety = hops._ty[hops._ty.index("<") + 1:-1]
        hop = V(r.P, r.I.vidx(hops.t, self.c, ety), ety)
        key, xy = hop.pool_key, hop.x_to_y
        pty = pool(r.S0, key).sqrt_price._ty
        limit = V(r.P, ite(B(xy), agg(pty, 0, [iconst(MIN_PRICE)], pty), agg(pty, 0, [iconst(MAX_PRICE)], pty)), pty)
        nxt = V(r.P, L._b(out.t), out._ty)
        tout = V(r.P, r.R(nxt.t, L.back.pc), out._ty)
        self.T = Trade(r, key, xy, out, V(r.P, t.boolt(TRUE), "bool"), limit, L.back, L.head.S1, tout)

    def sub(self, A):
        """the arguments of a swap replaced by those of the hop"""
        a, T = A.r.args, self.T
        out = {a[1].t: T.key.t, a[2].t: T.rawx.t, a[3].t: T.amount.t, a[4].t: T.rawby.t, a[5].t: T.limit.t}
        if A.r.S0opt is not self.L.head.S1opt:
            out[A.r.S0opt] = self.L.head.S1opt
        return out


def spec_route(n):
    def go(ctx):
        A = trade_of(ctx.run("swap"))
        r = ctx.run(n)
        w = whole(r)
        a = r.args
        if n == "quote_route":
            ret = r.exit.ret
            fin, out, hops = under(r.exit, ret.ok()), ret.var(0), a[2]
        else:
            fin, out, hops = r.exit, r.exit.ret, a[4]
        R_ = Route(r, a[1], hops, V(r.P, fin.norm(out), out._ty), fin)
        T, L, c = R_.T, R_.L, R_.c
        ctx.same(n + ": the first hop trades the given amount", L.entry, L.first(R_.total).n, a[1].n, TRUE, w, "amount of the first hop")
        sm = agree(ctx, n, A, T, R_.sub(A), band(L.head.pc, gt(R_.size, c)), w)
        ctx.implies(n + ": a hop yields some output and uses up its amount", L.back, band(iseq(T.rem, 0), ge(T.tout, 1)), None, w, "a hop without output")
        ctx.implies(n + ": ends after the last hop", fin, ge(c, R_.size), None, w, "hops are left out")
        if n == "quote_route":
            holds_whenever(ctx, n + ": goes on to the next hop whenever the trade succeeds", r, L.back.st.pc, swap_point(r, T), "a quotation is refused although each hop would succeed", w)
            holds_whenever(ctx, n + ": succeeds after the last hop", r, band(r.exit.st.pc, ret.ok()), band(L.head.pc, ge(c, R_.size)), "a quotation is refused although each hop would succeed", w)
            return
        T.tin, T.fee, T.ticks = (V(r.P, sm.W(v.t), v._ty) for v in (A.tin, A.fee, A.ticks))
        S0, S1, x = L.head.S1, L.back.S1, L.back
        stored(ctx, n + " hop", r, T, x, S0, S1)
        U, TOK = user(r), user(r, "TOK")
        k = T.key
        give = V(r.P, ite(T.x2y, k.token_x.t, k.token_y.t), k.token_x._ty)
        take = V(r.P, ite(T.x2y, k.token_y.t, k.token_x.t), k.token_x._ty)
        me = U.eq(r.caller)
        d = t.sub(when(band(me, TOK.eq(take)), T.tout.n), when(band(me, TOK.eq(give)), T.tin.n))
        ctx.same(n + " hop: balances", x, bal(S1, U, TOK), t.add(bal(S0, U, TOK), d), TRUE, w, "recorded balance after a hop")
        trade_events(ctx, n, r, T, L.back)
        for nm, f in (("balances", lambda S: bal(S, U, TOK)), ("pools", lambda S: pool_opt(S, G(r).K)), ("ticks", lambda S: tick_opt(S, G(r).K, G(r).I))):
            ctx.same("%s: %s before the first hop" % (n, nm), L.entry, f(L.entry.S1), f(r.S0), TRUE, w, nm)
            ctx.same("%s: %s after the last hop" % (n, nm), fin, f(fin.S1), f(L.head.S1), TRUE, w, nm)
        least = r.call("calculate_min_amount_out", a[2], a[3])
        ctx.implies(n + " requires the minimum output", fin, ge(R_.total, least), None, w, "a route yields less than the caller accepts")
        holds_whenever(ctx, n + ": succeeds after the last hop with the minimum output", r, fin.st.pc, band(L.head.pc, ge(c, R_.size), ge(R_.total, least)), "a route is refused although each hop succeeded", w)
        # a hop is refused only for lack of balance
        ls = [z for z in store_loop(r, lambda S: ticks(S).t) if z[0].lid != L.lid]
        if len(ls) == 1:
            M, e, h, b = ls[0]
            size = r.I.vlen(T.ticks.t)
            cc = counter(r, M, size, x)
            holds_whenever(ctx, n + " hop: a finished trade goes on to be stored", r, e.st.pc, swap_point(r, T), "a finished trade is refused", w)
            U256 = (1 << 256) - 1
            full = band(h.pc, ge(cc[0], size), ge(bal(S0, r.caller, give), T.tin), ge(U256, t.add(bal(S0, r.caller, take), T.tout.n)), two_tokens(k), pools(S0).has(k), notified(x))
            holds_whenever(ctx, n + " hop: a stored trade is settled whenever the caller can pay", r, x.st.pc, full, "a hop the caller can pay is refused", w)
    go.__name__ = "spec_route_" + n
    return go


spec_route_quote, spec_route_swap = spec_route("quote_route"), spec_route("swap_route")


# ------------------------------------------------------------------ events
def events_of(r, variant):
    """notifications of one kind: [(event, point of sending, {field: value})]"""
    P = r.P
    ty = [n for n in P.tyname if n.endswith("::InvariantEvent") and P.types[P.byname[n]].get("k") == "enum"][0]
    names = [q["n"] for q in P.types[P.byname[ty]]["v"]]
    i = names.index(variant)
    out = []
    for e in r.events("notify"):
        v = e.args[-1]
        if v.op != "agg":
            raise AnalysisError("the kind of an event is not fixed where it is sent")
        if v.args[1] == i:
            out.append((e, Exit(r, spec.St(e.pc, e.mem)), (lambda f, v=V(P, v, ty): v.fld(f, i))))
    return out


def emits(ctx, n, r, variant, fields, cond=TRUE, fin=None, facts=TRUE):
    """when the operation succeeds it has sent this event, with these contents, exactly once if cond and not otherwise"""
    fin, w = fin or r.exit, whole(r)
    es = events_of(r, variant)
    sent = bor(*[x.pc for _, x, _ in es])
    ctx.implies("%s: %s is sent when due" % (n, variant), fin, sent, band(cond, facts), w, "an operation succeeds without its event")
    if cond != TRUE:
        ctx.implies("%s: %s is sent only when due" % (n, variant), fin, bnot(sent), band(bnot(cond), facts), w, "an event is sent although it is not due")
    ctx.implies("%s: %s is sent once" % (n, variant), fin, band(*[bnot(band(a[1].pc, b[1].pc)) for i, a in enumerate(es) for b in es[:i]]), None, w, "an event is sent twice")
    for j, (e, x, f) in enumerate(es):
        for nm, v in fields.items():
            ctx.same("%s: %s%s: %s" % (n, variant, "" if j == 0 else " %d" % j, nm), x, f(nm), v, TRUE, w, "event field " + nm)
    return es


def spec_events(ctx):
    """what observers are told is what happened"""
    n = "create_position"
    r = ctx.run(n)
    a, S0 = r.args, r.exit.S0
    emits(ctx, n, r, "PositionCreatedEvent", dict(timestamp=now(r), address=r.caller, pool_key=a[1], liquidity_delta=a[4], lower_tick=a[2], upper_tick=a[3], current_sqrt_price=pool(S0, a[1]).sqrt_price))
    n = "remove_position"
    r = ctx.run(n)
    o = Closing(r)
    emits(ctx, n, r, "PositionRemovedEvent", dict(timestamp=now(r), address=r.caller, pool_key=o.k, liquidity=o.q.liquidity, lower_tick_index=o.lo, upper_tick_index=o.up, sqrt_price=o.p.sqrt_price))
    n = "swap"
    r = ctx.run(n)
    T = trade_of(r)
    trade_events(ctx, n, r, T, r.exit)
    may = {"create_position": 1, "remove_position": 1, "swap": 2, "swap_route": 2}
    for n in entries(ctx):
        r = ctx.run(n)
        kinds = {e.args[-1].args[1] if e.args[-1].op == "agg" else e.args[-1] for e in r.events("notify")}
        ctx.ob("%s: kinds of events" % n, len(kinds) == may.get(n, 0), "%d kinds of events are sent" % len(kinds), whole(r))


def trade_events(ctx, n, r, T, fin):
    w = whole(r)
    size = r.I.vlen(T.ticks.t)
    p0 = pool(T.S0, T.key)
    emits(ctx, n, r, "SwapEvent", dict(timestamp=now(r), address=r.caller, pool_key=T.key, amount_in=T.tin, amount_out=T.tout, fee=T.fee, start_sqrt_price=p0.sqrt_price,
                                       target_sqrt_price=T.pool.sqrt_price, x_to_y=V(r.P, T.rawx.t, "bool")), fin=fin)
    J = sym("IX", "usize")
    tty = ticks(T.S0).valty()

    def want(j):
        return V(r.P, r.I.vidx(T.ticks.t, j, tty), tty).index.n
    facts = TRUE
    for e, x, f in events_of(r, "CrossTickEvent"):
        v = f("indexes")
        it = v.t
        if x.same(r.I.vlen(it), size) and x.same(r.I.vidx(it, J, "i32"), want(J), gt(size, J)):
            ctx.ob("%s: reported ticks are the crossed ones" % n, True, "", w)
            continue
        # built up in a loop: the first i entries are right after i rounds
        ok = False
        why = "the reported tick indexes are not those of the crossed ticks"
        if it.op == "phi":
            L = Loop(r, it.args[0])
            for c in counter(r, L, size, x):
                ih = band(ge(c, 0), t.eq0(t.sub(r.I.vlen(it), c)), bor(ge(J, c), t.eq0(t.sub(r.I.vidx(it, J, "i32"), want(J)))))
                nx, nc = L.next(V(r.P, it, v._ty)).t, t.add(c, iconst(1))
                ok = L.entry.same(r.I.vlen(L.first(V(r.P, it, v._ty)).t), iconst(0)) and L.back.same(r.I.vlen(nx), nc, ih) and \
                    L.back.same(r.I.vidx(nx, J, "i32"), want(J), band(ih, gt(nc, J))) and L.back.implies(gt(size, c)) and x.implies(t.eq0(t.sub(c, size)), band(ih, ge(size, c)))
                if ok:
                    # on leaving the loop c is the number of crossed ticks (counted up one by one to it), so the lengths agree
                    facts = band(facts, t.eq0(t.sub(r.I.vlen(it), size)))
                    break
        ctx.ob("%s: reported ticks are the crossed ones" % n, ok, why, w)
    emits(ctx, n, r, "CrossTickEvent", dict(timestamp=now(r), address=r.caller, pool_key=T.key), gt(size, 0), fin=fin, facts=facts)
