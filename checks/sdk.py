"""The browser SDK computes what the exchange computes: the same formulas, the same search, the same trade."""
from .trade import *
from . import mathspec as m
from .mathspec import frun, fn_where, succeeds, value_is, fn_of, ranged, boolv
from .search import spec_search, spec_closer

W = "invariant_vara_wasm"


def sdk_search(ctx):
    spec_search(ctx, ctx.W, "SDK: ")


def sdk_closer(ctx):
    spec_closer(ctx, ctx.W, "SDK: ")


def on_sdk(*groups):
    """obligation groups of the exchange's formulas, on the SDK's copies"""
    out = []
    for g in groups:
        def go(ctx, g=g):
            g(ctx, crate=W)
        go.__name__ = "sdk_" + g.__name__
        out.append(go)
    return out


# ------------------------------------------------------------------ the simulated trade
STEPS = ("get_closer_limit", "compute_swap_step", "get_tick_at_sqrt_price", "is_enough_amount_to_change_price", "get_min_tick", "get_max_tick")
MAX_STEPS = 142


class Simulation:
    def __init__(self, ctx):
        self.r = r = frun(ctx, "simulate_invariant_swap", opaque=STEPS, crate=W)
        self.map, self.tier, self.pool0, self.given, x2y, self.amount, by_in, self.limit = r.args
        self.rawx, self.rawby, self.x2y, self.by_in = x2y, by_in, B(x2y), B(by_in)
        self.L, self.pool = trade_loop(r)
        L = self.L
        ret = r.exit.ret
        self.ok = ret.ok()
        self.res = ret.var(0)
        fl_ = [B(self.res.fld(f)) for f in ("global_insufficient_liquidity", "max_swap_steps_reached", "state_outdated")]
        self.flags = dict(zip(("insufficient", "steps", "outdated"), fl_))
        self.done = under(r.exit, band(self.ok, *[bnot(f) for f in fl_]))
        x = self.done
        tok = self.amount._ty

        def carried(what, field, nums=True):
            """the running value that a complete result reports in this field"""
            v = self.res.fld(field)
            g = v.n if nums else v.t
            c = [p for p in L.carried() if t.numeric(p) == nums and x.same(g, p)] if nums else [p for p in L.carried() if (p.ty or "") == v._ty and x.same(g, p)]
            if len(c) != 1:
                raise AnalysisError("the running %s of the simulation was not found (%d candidates)" % (what, len(c)))
            return V(r.P, agg(tok, 0, [c[0]], tok), tok) if nums else V(r.P, c[0], v._ty)
        self.tin, self.tout, self.fee = carried("input", "amount_in"), carried("output", "amount_out"), carried("fee", "fee")
        self.ticks = carried("list of crossed ticks", "crossed_ticks", False)
        known = {v.n for v in (self.tin, self.tout, self.fee)}
        c = [p for p in L.carried() if t.numeric(p) and p not in known and L.entry.same(L.first(p), self.amount.n) and x.same(p, iconst(0))]
        if len(c) != 1:
            raise AnalysisError("the amount left in the simulation was not found (%d candidates)" % len(c))
        self.rem = V(r.P, agg(tok, 0, [c[0]], tok), tok)
        c = [p for p in L.carried() if t.numeric(p) and p not in known and p is not self.rem.n and L.entry.same(L.first(p), iconst(0)) and L.back.same(L.next(p), t.add(p, iconst(1)), ge(MAX_STEPS, p))]
        if len(c) != 1:
            raise AnalysisError("the step counter of the simulation was not found (%d candidates)" % len(c))
        self.steps = c[0]
        self.tty = self.given._ty[self.given._ty.index("<") + 1:-1]

    def amountv(self, x):
        ty = self.amount._ty
        return V(self.r.P, agg(ty, 0, [n_(x)], ty), ty)


def sdk_step(T):
    """the specified iteration of a simulation, in terms of the running values at its start"""
    r, P, p = T.r, T.r.P, T.pool
    req = []
    n16 = lambda v: V(P, n_(v), "u16")
    sp = n16(T.tier.tick_spacing)
    lim = r.call("get_closer_limit", V(P, mk("at", (T.map.t,))), T.limit, T.rawx, V(P, p.current_tick_index.n, "i32"), sp)
    req.append(("a next limit", lim.ok()))
    lp, opt = lim.var(0).fld("0"), lim.var(0).fld("1")
    res = r.call("compute_swap_step", p.sqrt_price, lp, p.liquidity, T.rem, T.rawby, T.tier.fee)
    req.append(("a computable step", res.ok()))
    s = res.var(0)
    nxt = s.next_sqrt_price
    rem = T.amountv(t.sub(T.rem.n, ite(T.by_in, t.add(s.amount_in.n, s.fee_amount.n), s.amount_out.n)))
    req.append(("a step within the amount", ge(rem, 0)))
    req.append(("a price short of the limit unless the amount is used up", bnot(band(nxt.eq(T.limit), bnot(iseq(rem, 0))))))
    has, idx, ini = opt_ok(opt), opt.var(1).fld("0"), B(opt.var(1).fld("1"))
    stop = band(has, lp.eq(nxt))
    at = r.call("get_tick_at_sqrt_price", nxt, sp)
    en = r.call("is_enough_amount_to_change_price", rem, nxt, p.liquidity, T.tier.fee, T.rawby, T.rawx)
    req.append(("a tick for the price", bor(stop, at.ok())))
    req.append(("a decision whether the amount reaches further", bor(bnot(stop), en.ok())))
    enough = B(en.var(0))
    crossed = band(stop, ini, bor(bnot(T.x2y), enough))
    dust = band(stop, ini, bnot(crossed), bnot(iseq(rem, 0)))
    keep = band(dust, T.by_in)
    # the tick taken from the given ones is what a crossing appends to the crossed ticks
    n0 = r.I.vlen(T.ticks.t)
    new_ = r.I.vidx(T.L.next(T.ticks).t, n0, T.tty)
    taken = [y for y in leaves(new_) if y.op == "idx" and y.args[0] is T.given.t]
    tk = V(P, taken[0] if len(taken) == 1 else new_, T.tty)
    up = bor(band(ge(p.current_tick_index, tk.index), bnot(B(tk.sign))), band(bnot(ge(p.current_tick_index, tk.index)), B(tk.sign)))
    liq = ite(up, t.add(p.liquidity.n, tk.liquidity_change.n), t.sub(p.liquidity.n, tk.liquidity_change.n))
    req.append(("enough liquidity to cross the tick", bor(bnot(crossed), t.ge0(liq))))
    cur = ite(stop, ite(band(T.x2y, enough), t.sub(idx.n, sp.n), idx.n), at.var(0).n)
    lo, hi = r.call("get_min_tick", sp), r.call("get_max_tick", sp)
    req.append(("a tick inside the supported range", ite_b(T.x2y, gt(cur, lo.var(0)), gt(hi.var(0), cur))))
    req.append(("no more than the allowed number of steps", ge(MAX_STEPS - 1, T.steps)))
    new = upd(p, sqrt_price=nxt, liquidity=ite(crossed, liq, p.liquidity.n), current_tick_index=cur)
    tin = t.add(t.add(T.tin.n, s.amount_in.n), s.fee_amount.n)
    fits = [below256(v) for v in (t.add(tin, when(keep, rem.n)), t.add(T.tout.n, s.amount_out.n), t.add(T.fee.n, s.fee_amount.n), t.add(s.amount_in.n, s.fee_amount.n), ite(crossed, liq, iconst(0)))]
    m32 = (1 << 31) - 1
    facts = band(ge(sp, 1), ge(100, sp), ge(p.current_tick_index, -MAX_TICK), ge(MAX_TICK, p.current_tick_index), ge(idx, -MAX_TICK), ge(MAX_TICK, idx),
                 ge(at.var(0), -MAX_TICK), ge(MAX_TICK, at.var(0)), ge(m32, tk.index), ge(tk.index, -m32 - 1), ge(T.steps, 0), ge(MAX_STEPS, T.steps),
                 *[c for v in (lo, hi) for c in (ge(v.var(0), -MAX_TICK), ge(MAX_TICK, v.var(0)))])
    return dict(req=req, fits=fits, facts=facts, pool=new, tin=t.add(tin, when(keep, rem.n)), tin0=tin, tout=t.add(T.tout.n, s.amount_out.n), fee=t.add(T.fee.n, s.fee_amount.n),
                rem=ite(dust, iconst(0), rem.n), rem1=rem.n, stop=stop, ini=ini, enough=enough, crossed=crossed, tk=tk, idx=idx, lim=lim, nxt=nxt, cur=cur, lo=lo, hi=hi, has=has)


def leaves(x):
    if x.op == "ite":
        return list(dict.fromkeys(leaves(x.args[1]) + leaves(x.args[2])))
    return [x]


def below256(v):
    return ge((1 << 256) - 1, v)


def sdk_trade(ctx):
    T = Simulation(ctx)
    r, L, w = T.r, T.L, fn_where(T.r)
    P = r.P
    n = "simulation"
    ok = under(r.exit, T.ok)
    ctx.implies(n + ": needs an amount", ok, ge(T.amount, 1), None, w, "an empty trade is simulated")
    ctx.implies(n + ": needs a price limit on the far side of the price", ok, ite_b(T.x2y, gt(T.pool0.sqrt_price, T.limit), gt(T.limit, T.pool0.sqrt_price)), None, w, "a limit the exchange refuses is simulated")
    ctx.same(n + ": starts from the given pool", L.entry, L.first(T.pool), T.pool0, TRUE, w, "pool")
    for nm, v, x in (("input", T.tin, 0), ("output", T.tout, 0), ("fee", T.fee, 0), ("amount left", T.rem, T.amount.n)):
        ctx.same("%s: starts with the right %s" % (n, nm), L.entry, L.first(v).n, iconst(0) if x == 0 else x, TRUE, w, nm)
    ctx.same(n + ": starts with no crossed tick", L.entry, r.I.vlen(L.first(T.ticks).t), iconst(0), TRUE, w, "crossed ticks")
    # what is reported
    x = T.done
    ctx.implies(n + ": an unmarked result is a trade whose amount is used up", x, iseq(T.rem, 0), None, w, "an incomplete trade is reported as complete")
    ctx.same(n + ": reported start price", ok, T.res.start_sqrt_price, T.pool0.sqrt_price, TRUE, w, "start price")
    ctx.same(n + ": reported end price", x, T.res.target_sqrt_price, T.pool.sqrt_price, TRUE, w, "end price")
    for nm, f, v in (("input", "amount_in", T.tin), ("output", "amount_out", T.tout), ("fee", "fee", T.fee)):
        ctx.same("%s: reported %s" % (n, nm), x, T.res.fld(f), v, TRUE, w, nm)
    holds_whenever(ctx, n + ": a trade whose amount is used up is reported complete", r, x.st.pc, band(L.head.pc, iseq(T.rem, 0)), "a complete trade is refused or marked", w)
    fl_ = list(T.flags.items())
    for i, (a, c) in enumerate(fl_):
        for b, d in fl_[:i]:
            ctx.implies("%s: one reason for an incomplete trade (%s, %s)" % (n, b, a), ok, bnot(band(c, d)), None, w, "two reasons at once")
    st = sdk_step(T)
    facts = st["facts"]
    lim_reached = band(st["lim"].ok(), st["nxt"].eq(T.limit), bnot(iseq(st["rem1"], 0)))
    at_end = band(st["lim"].ok(), bnot(st["req"][-2][1]))
    ctx.implies(n + ": liquidity is reported missing only at the end of the ticks, of the supported range or at the limit", under(ok, T.flags["insufficient"]),
                bor(bnot(st["lim"].ok()), lim_reached, at_end), facts, w, "liquidity is reported missing although the trade could go on")
    ctx.implies(n + ": too many steps are reported only after the allowed number", under(ok, T.flags["steps"]), ge(T.steps, MAX_STEPS), facts, w, "a trade is cut short")
    base = band(facts, *st["fits"])
    # what an incomplete result reports: the steps made so far
    made = under(ok, band(bor(*T.flags.values()), base))
    insufficient, steps, outdated = (T.flags[k] for k in ("insufficient", "steps", "outdated"))
    stepped = st["lim"].ok()
    for what, c, m, k in (("no next limit", band(insufficient, bnot(stepped)), 0, 0), ("at the price limit", band(insufficient, stepped, lim_reached), 1, 0),
                          ("at the end of the range", band(insufficient, stepped, bnot(lim_reached)), 1, 1), ("given ticks outdated", outdated, 1, 0), ("out of steps", steps, 1, 1)):
        x = under(made, c)
        for nm, f, v, e in (("input", "amount_in", T.tin, st["tin" if k else "tin0"]), ("output", "amount_out", T.tout, st["tout"]), ("fee", "fee", T.fee, st["fee"]), ("end price", "target_sqrt_price", T.pool.sqrt_price, st["nxt"].n)):
            ctx.same("%s, incomplete, %s: reported %s" % (n, what, nm), x, T.res.fld(f).n, e if m else v.n, TRUE, w, nm)
        ctx.same("%s, incomplete, %s: reported crossed ticks" % (n, what), x, r.I.vlen(T.res.crossed_ticks.t), t.add(r.I.vlen(T.ticks.t), when(st["crossed"], iconst(1)) if k else iconst(0)), TRUE, w, "crossed ticks")
    # one iteration
    newp = V(P, st["pool"].t if isinstance(st["pool"], V) else st["pool"], T.pool._ty)
    np = L.next(T.pool)
    I_ = sym("IX", "usize")
    n0, n1 = r.I.vlen(T.ticks.t), r.I.vlen(L.next(T.ticks).t)
    for cn, c0, c1 in cases(T, st):
        b = under(under(L.back, band(base, c0)), c1)
        if b.pc == FALSE:
            ctx.ob("%s, %s: happens" % (n, cn), False, "no iteration ends this way", w)
            continue
        for what, c in st["req"]:
            ctx.implies("%s, %s: requires %s" % (n, cn, what), b, c, None, w, "a simulated trade goes on without " + what)
        for f in [q[0] for q in P.types[P.byname[T.pool._ty]]["v"][0]["f"]]:
            ctx.same("%s, %s: pool's %s" % (n, cn, f), b, np.fld(f), newp.fld(f), TRUE, w, f)
        for nm, v, e in (("total input", T.tin, st["tin"]), ("total output", T.tout, st["tout"]), ("fee total", T.fee, st["fee"]), ("amount left", T.rem, st["rem"])):
            ctx.same("%s, %s: %s" % (n, cn, nm), b, L.next(v).n, e, TRUE, w, nm)
        ctx.same("%s, %s: number of crossed ticks" % (n, cn), b, n1, t.add(n0, when(st["crossed"], iconst(1))), TRUE, w, "crossed ticks")
        ctx.same("%s, %s: ticks crossed before stay" % (n, cn), b, r.I.vidx(L.next(T.ticks).t, I_, T.tty), r.I.vidx(T.ticks.t, I_, T.tty), gt(n0, I_), w, "crossed tick")
    # the tick that is crossed
    tk, x = st["tk"], under(under(L.back, base), st["crossed"])
    ctx.same(n + ": the crossed tick is the limiting one", x, tk.index.n, st["idx"].n, TRUE, w, "index of the crossed tick")
    ctx.same(n + ": the crossed tick is kept as given", x, r.I.vidx(L.next(T.ticks).t, n0, T.tty), tk, TRUE, w, "crossed tick")
    src = tk.t
    given = src.op == "idx" and src.args[0] is T.given.t
    ctx.ob(n + ": the crossed tick is one of the given ticks", given, "the crossed tick is not taken from the given list", w)
    found = TRUE
    if given and src.args[1].op == "phi":
        # a search through the list: every tick before the one taken has another index
        S = Loop(r, src.args[1].args[0])
        j = src.args[1]
        el = V(P, r.I.vidx(T.given.t, j, T.tty), T.tty)
        size = r.I.vlen(T.given.t)
        ctx.same(n + ": the search begins with the first given tick", S.entry, S.first(j), iconst(0), TRUE, w, "position")
        ctx.same(n + ": the search goes through the given ticks one by one", S.back, S.next(j), t.add(j, iconst(1)), TRUE, w, "position")
        m32 = (1 << 31) - 1
        ctx.implies(n + ": the search passes only ticks with other indexes", S.back, bnot(t.eq0(t.sub(el.index.n, st["idx"].n))), band(facts, ge(m32, el.index), ge(el.index, -m32 - 1)), w, "a given tick is overlooked")
        hit = band(gt(size, j), t.eq0(t.sub(el.index.n, st["idx"].n)))
        found = bor(bnot(band(st["has"], st["ini"])), hit)
        ctx.implies(n + ": the given ticks are called outdated only without the limiting tick or its liquidity", under(ok, T.flags["outdated"]),
                    bor(bnot(hit), bnot(st["req"][-3][1]), bnot(st["req"][4][1]), bnot(st["req"][5][1])), base, w, "given ticks are called outdated although the limiting tick is among them")
    for cn, c0, c1 in cases(T, st):
        full = band(base, c0, c1, L.head.pc, ge(T.rem, 1), found, *[c for _, c in st["req"]])
        holds_whenever(ctx, "%s, %s: happens whenever nothing overflows" % (n, cn), r, L.back.st.pc, full, "a simulated trade stops although the exchange would go on", w)


# ------------------------------------------------------------------ helpers for building transactions
def sdk_fee(ctx):
    """the fees a position can claim: as the exchange pays them"""
    r = frun(ctx, "calculate_fee", opaque=("calculate_fee_growth_inside",), crate=W)
    x = r.exit
    lo, lox, loy, up, upx, upy, cur, gx, gy, px, py, L = r.args
    ok = x.ret.ok()
    inside = r.call("calculate_fee_growth_inside", lo, lox, loy, up, upx, upy, cur, gx, gy)
    owed = []
    for i, p in enumerate((px, py)):
        v = t.div(t.mul(m.wdiff(inside.fld(str(i)), p), n_(L)), iconst(10 ** 33))
        owed.append(v)
        ctx.same("claimable fee of the %s token" % ("first", "second")[i], x, x.ret.var(0).fld(str(i)).n, v, ok, fn_where(r), "fee")
    succeeds(ctx, "claimable fee always computed", r, band(*[m.below(v, m.U256) for v in owed]))


def sdk_limits(ctx):
    """limits the SDK publishes are accepted by the exchange"""
    from .queries import LIMIT_TICKS, LIMIT_POSITION_TICKS
    for item, top, what in (("get_liquidity_tick_limit", LIMIT_TICKS, "ticks per request"), ("get_position_tick_limit", LIMIT_POSITION_TICKS, "position ticks per answer")):
        r = frun(ctx, item, crate=W)
        ctx.ob("published limit of %s" % what, ge(iconst(top), r.exit.ret.n) == TRUE, "the SDK asks for more than the exchange answers", fn_where(r))
    for item, v, what in (("get_global_min_sqrt_price", 15258932000000000000, "lowest"), ("get_global_max_sqrt_price", m.MAX_SP, "highest"), ("get_tick_search_range", 256, "reach of the search"), ("get_chunk_size", 64, "places per chunk")):
        r = frun(ctx, item, crate=W)
        ctx.same("published %s" % what, r.exit, r.exit.ret.n, iconst(v), TRUE, fn_where(r), "constant")


def sdk_keys(ctx):
    """fee tiers and pool keys are made by the exchange's rules"""
    from eng.models import olt, streq
    r = frun(ctx, "new", crate=W, adt="FeeTier")
    x, w = r.exit, fn_where(r)
    fee, sp = r.args
    good = band(ge(sp, 1), ge(100, sp), ge(10 ** 12, fee))
    ctx.same("fee tier: which are made", x, m.boolv(x.ret.ok()), m.boolv(good), TRUE, w, "validity")
    ctx.same("fee tier: its fee", x, x.ret.var(0).fee.n, n_(fee), good, w, "fee")
    ctx.same("fee tier: its spacing", x, x.ret.var(0).tick_spacing.n, n_(sp), good, w, "spacing")
    succeeds(ctx, "fee tier: always answered", r, good)
    r = frun(ctx, "new", crate=W, adt="PoolKey")
    x, w = r.exit, fn_where(r)
    a, b, tier = r.args
    same_ = t.as_bdd(streq(a.t, b.t))
    less = band(olt(a.t, b.t), bnot(same_))
    ctx.same("pool key: only for two different tokens", x, m.boolv(x.ret.ok()), m.boolv(bnot(same_)), TRUE, w, "validity")
    k = x.ret.var(0)
    for name, c, first, second in (("given in order", less, a, b), ("given in reverse", band(bnot(less), bnot(same_)), b, a)):
        ctx.same("pool key: first token, %s" % name, x, k.token_x, first, c, w, "token")
        ctx.same("pool key: second token, %s" % name, x, k.token_y, second, c, w, "token")
    ctx.same("pool key: its tier", x, k.fee_tier, tier, bnot(same_), w, "tier")
    r = frun(ctx, "is_token_x", crate=W)
    x, w = r.exit, fn_where(r)
    a, b = r.args
    same_ = t.as_bdd(streq(a.t, b.t))
    ctx.same("token order: the first token is the smaller address", x, m.boolv(B(x.ret.var(0))), m.boolv(band(olt(a.t, b.t), bnot(same_))), x.ret.ok(), w, "order")


def sdk_positions(ctx):
    """places of ticks in the bitmap"""
    for k in range(1, 101):
        D = m.MAX_TICK // k
        P = ctx.W
        f = fn_of(P, "tick_to_position_js", W)
        n = ranged("n", -D, D)
        r = spec.Run(P, f, args=[t.mul(n, iconst(k)), iconst(k)], opaque=lambda fi: False)
        ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
        w = f["key"]
        x = r.exit
        pos = t.add(n, iconst(D))
        good = x.pc == TRUE and r.R.b(x.ret.ok(), TRUE) == TRUE if hasattr(r.R, "b") else x.ret.ok() == TRUE
        ctx.ob("spacing %d: every tick has a place" % k, good, "a supported tick is refused", w)
        c, b = x.ret.var(0).fld("0").n, x.ret.var(0).fld("1").n
        ctx.same("spacing %d: chunk of a tick" % k, x, c, t.div(pos, iconst(64)), TRUE, w, "chunk")
        ctx.same("spacing %d: bit of a tick" % k, x, b, t.sub(pos, t.mul(iconst(64), t.div(pos, iconst(64)))), TRUE, w, "bit")
        f = fn_of(P, "position_to_tick", W)
        A, Bt = ranged("A", 0, 2 * D // 64), ranged("B", 0, 63)
        r = spec.Run(P, f, args=[A, Bt, iconst(k)], opaque=lambda fi: False)
        ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
        x = r.exit
        ctx.same("spacing %d: tick of a place" % k, x, x.ret.var(0).n, t.mul(iconst(k), t.sub(t.add(t.mul(iconst(64), A), Bt), iconst(D))), x.ret.ok(), f["key"], "tick")
        ctx.ob("spacing %d: every place has a tick" % k, x.pc == TRUE and x.ret.ok() == TRUE, "a place is refused", f["key"])
        f = fn_of(P, "get_max_chunk", W)
        r = spec.Run(P, f, args=[iconst(k)], opaque=lambda fi: False)
        x = r.exit
        ctx.same("spacing %d: last chunk" % k, x, x.ret.var(0).n, iconst(2 * D // 64), x.ret.ok(), f["key"], "chunk")


def sdk_liquidity(ctx):
    """liquidity an amount pays for, rounded down, and the other token it needs"""
    one = iconst(m.ONE_SP)
    for tok in "xy":
        r = frun(ctx, "get_liquidity_by_%s_sqrt_price" % tok, crate=W)
        x = r.exit
        a, lo, up, cur, rup = r.args
        w = fn_where(r)
        ok = x.ret.ok()
        res = x.ret.var(0)
        base = band(gt(up, lo), ge(lo, m.PMIN), ge(m.MAX_SP, up), ge(m.MAX_SP, cur), ge(cur, m.PMIN))
        if tok == "x":
            a_in, inside = band(gt(lo, cur), base), band(ge(cur, lo), gt(up, cur), base)
            none = band(ge(cur, up), base)

            def liq(p, q):
                return t.div(t.mul(t.mul(n_(a), t.div(t.mul(n_(p), n_(q)), one)), iconst(m.ONE_L)), t.sub(n_(q), n_(p)))
            L1, L2 = liq(lo, up), liq(cur, up)
        else:
            a_in, inside = band(ge(cur, up), base), band(gt(cur, lo), gt(up, cur), base)
            none = band(ge(lo, cur), base)

            def liq(p, q):
                return t.div(t.mul(t.mul(n_(a), one), iconst(m.ONE_L)), t.sub(n_(q), n_(p)))
            L1, L2 = liq(lo, up), liq(lo, cur)
        ctx.same("liquidity for %s, range on one side of the price" % tok, x, res.l.n, L1, band(ok, a_in), w, "liquidity")
        ctx.same("liquidity for %s, range on one side of the price: no other token" % tok, x, res.amount.n, iconst(0), band(ok, a_in), w, "other amount")
        ctx.same("liquidity for %s, price inside the range" % tok, x, res.l.n, L2, band(ok, inside), w, "liquidity")
        if tok == "x":
            d, s = t.sub(n_(cur), n_(lo)), t.div(L2, iconst(m.ONE_L))
            dn, u = t.div(t.mul(d, s), one), m.ce(t.mul(d, s), one)
        else:
            c = t.div(t.mul(t.div(t.mul(L2, t.sub(n_(up), n_(cur))), one), one), t.div(t.mul(n_(cur), n_(up)), one))
            dn, u = t.div(c, iconst(m.ONE_L)), m.ce(c, m.ONE_L)
        for name, c, v in (("down", bnot(B(rup)), dn), ("up", B(rup), u)):
            ctx.same("liquidity for %s, price inside the range: other token rounded %s" % (tok, name), x, res.amount.n, v, band(ok, inside, c), w, "other amount")
        holds_whenever(ctx, "liquidity for %s: a range that takes none of it is refused" % tok, r, bnot(band(x.st.pc, ok)), none, "liquidity is computed for a token the range does not take", w)
        holds_whenever(ctx, "liquidity for %s: such a range is refused with an error, not a trap" % tok, r, x.st.pc, none, "the computation aborts", w)


def sdk_by_ticks(ctx):
    """liquidity for a range given by ticks: that of the range between the ticks' prices"""
    for tok in "xy":
        f = "get_liquidity_by_%s_sqrt_price" % tok
        r = frun(ctx, "get_liquidity_by_%s" % tok, opaque=(f, "calculate_sqrt_price"), crate=W)
        x, w = r.exit, fn_where(r)
        a, lo, up, cur, rup = r.args
        pl, pu = r.call("calculate_sqrt_price", lo), r.call("calculate_sqrt_price", up)
        inner = r.call(f, a, pl.var(0), pu.var(0), cur, rup)
        sup = band(ge(lo, -m.MAX_TICK), ge(m.MAX_TICK, up))
        good = band(sup, pl.ok(), pu.ok(), inner.ok())
        ctx.same("liquidity for %s by ticks: answered exactly for supported ticks" % tok, x, m.boolv(x.ret.ok()), m.boolv(good), TRUE, w, "validity")
        ctx.same("liquidity for %s by ticks: that of the ticks' prices" % tok, x, x.ret.var(0), inner.var(0), good, w, "result")
        holds_whenever(ctx, "liquidity for %s by ticks: unsupported ticks are refused with an error, not a trap" % tok, r, x.st.pc, bnot(sup), "the computation aborts", w)
    for item, end in (("get_max_sqrt_price", "get_max_tick"), ("get_min_sqrt_price", "get_min_tick")):
        r = frun(ctx, item, opaque=("calculate_sqrt_price", "from_tick", end), crate=W)
        x, w = r.exit, fn_where(r)
        e = r.call(end, r.args[0])
        for conv in ("calculate_sqrt_price", "from_tick"):
            p = r.call(conv, e.var(0))
            if band(x.ret.ok(), e.ok()) != FALSE and p.t in parts(x.ret.t):
                break
        ctx.same(item + ": the price of the outermost tick", x, x.ret.var(0), p.var(0), band(x.ret.ok(), e.ok(), p.ok()), w, "price")


def parts(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in seen or not isinstance(y, t.T):
            continue
        seen.add(y)
        todo.extend(y.args)
    return seen
