"""What each operation requires and what it leaves behind."""
from .vocab import *
from .state import *


def ret_is(ctx, n, r, v, what="returned value"):
    ctx.same("%s: %s" % (n, what), r.exit, r.exit.ret, v, TRUE, whole(r), what)


def only_if(ctx, n, r, what, c):
    """the operation completes only when c held before it"""
    ctx.implies("%s requires %s" % (n, what), r.exit, c, None, whole(r), "%s completes although %s does not hold" % (n, what))


def whenever(ctx, n, r, what, c):
    """the operation completes whenever c held (nothing else makes it fail)"""
    x = r.exit
    live = is_init(r)
    try:
        ok = complete(r, band(c, live))
    except AnalysisError as e:
        ok = False
    ctx.ob("%s completes whenever %s" % (n, what), ok, "some input satisfying the stated conditions is rejected: " + t.bshow(x.pc, 5)[:400], whole(r))


def is_init(r):
    return t.is_variant(r.S0opt, 1, 2)


def complete(r, c):
    from eng.norm import equiv, TooHard
    try:
        return equiv(ite(r.exit.st.pc, iconst(1), iconst(0)), iconst(1), c, r.R, [6000])
    except TooHard:
        return False


# ------------------------------------------------------------------ administration
def spec_change_protocol_fee(ctx):
    n = "change_protocol_fee"
    r = ctx.run(n)
    x = r.exit
    only_if(ctx, n, r, "the caller is the administrator", is_caller(r, x.S0.config.admin))
    whenever(ctx, n, r, "the caller is the administrator", is_caller(r, x.S0.config.admin))
    ctx.same(n + ": new protocol fee", x, x.S1.config.protocol_fee, r.args[1], TRUE, whole(r), "stored protocol fee")
    ret_is(ctx, n, r, r.args[1])


def spec_add_fee_tier(ctx):
    n = "add_fee_tier"
    r = ctx.run(n)
    x = r.exit
    a = r.args[1]
    T_ = generic(r.P, a._ty, "TIER")
    one = iconst(10 ** 12)
    adm = is_caller(r, x.S0.config.admin)
    lo, hi, fee = ge(a.tick_spacing, 1), ge(100, a.tick_spacing), gt(one, a.fee)
    new = bnot(listed(x.S0, a))
    only_if(ctx, n, r, "the caller is the administrator", adm)
    only_if(ctx, n, r, "a tick spacing between 1 and 100", band(lo, hi))
    only_if(ctx, n, r, "a fee below 100%", fee)
    only_if(ctx, n, r, "the tier is not registered yet", new)
    whenever(ctx, n, r, "the tier is valid and new and the caller is the administrator", band(adm, lo, hi, fee, new))
    ctx.same(n + ": registered tiers", x, boolv(listed(x.S1, T_)), boolv(bor(listed(x.S0, T_), T_.eq(a))), TRUE, whole(r), "tier registered")
    ret_is(ctx, n, r, a)


def boolv(c):
    return ite(c, iconst(1), iconst(0))


def spec_remove_fee_tier(ctx):
    n = "remove_fee_tier"
    r = ctx.run(n)
    x = r.exit
    a = r.args[1]
    T_ = generic(r.P, a._ty, "TIER")
    adm = is_caller(r, x.S0.config.admin)
    only_if(ctx, n, r, "the caller is the administrator", adm)
    only_if(ctx, n, r, "the tier is registered", listed(x.S0, a))
    ctx.same(n + ": registered tiers", x, boolv(listed(x.S1, T_)), boolv(band(listed(x.S0, T_), bnot(T_.eq(a)))), TRUE, whole(r), "tier registered")
    ret_is(ctx, n, r, a)


def spec_change_fee_receiver(ctx):
    n = "change_fee_receiver"
    r = ctx.run(n)
    x = r.exit
    k, who = r.args[1], r.args[2]
    g = G(r)
    adm = is_caller(r, x.S0.config.admin)
    only_if(ctx, n, r, "the caller is the administrator", adm)
    only_if(ctx, n, r, "the pool exists", pools(x.S0).has(k))
    whenever(ctx, n, r, "the caller is the administrator and the pool exists", band(adm, pools(x.S0).has(k)))
    p = pool(x.S0, g.K)
    new = option(TRUE, upd(p, fee_receiver=who))
    ctx.same(n + ": pools", x, pool_opt(x.S1, g.K), ite(g.K.eq(k), new, pool_opt(x.S0, g.K)), TRUE, whole(r), "pool after the change")


def spec_withdraw_protocol_fee(ctx):
    n = "withdraw_protocol_fee"
    r = ctx.run(n)
    x = r.exit
    k = r.args[1]
    g = G(r)
    p = pool(x.S0, k)
    only_if(ctx, n, r, "the pool exists", pools(x.S0).has(k))
    only_if(ctx, n, r, "the caller is the pool's fee receiver", is_caller(r, p.fee_receiver))
    new = option(TRUE, upd(p, fee_protocol_token_x=iconst(0), fee_protocol_token_y=iconst(0)))
    ctx.same(n + ": pools", x, pool_opt(x.S1, g.K), ite(g.K.eq(k), new, pool_opt(x.S0, g.K)), TRUE, whole(r), "pool after the withdrawal")


# ------------------------------------------------------------------ pools
def ordered(r, a, b, tier):
    """key of the pool of a pair: the smaller token identifier first"""
    from eng import models
    kt = pools(r.S0).keyty()
    lt = models.olt(a.t, b.t)
    return V(r.P, agg(kt, 0, [ite(lt, a.t, b.t), ite(lt, b.t, a.t), tier.t], kt), kt)


def in_list(S, k):
    return S.pool_keys.fld("pool_keys").has(k)


def spec_create_pool(ctx):
    n = "create_pool"
    r = ctx.run(n)
    x = r.exit
    tx, ty, tier, price, tick_ = r.args[1:6]
    g = G(r)
    k = ordered(r, tx, ty, tier)
    okt = r.call("check_tick", tick_, tier.tick_spacing).ok()
    rel = r.call("check_tick_to_sqrt_price_relationship", tick_, tier.tick_spacing, price)
    sp = r.call("calculate_sqrt_price", tick_)
    conds = [("two different tokens", bnot(tx.eq(ty))), ("a registered fee tier", listed(x.S0, tier)), ("a valid initial tick", okt),
             ("a price belonging to the initial tick", band(rel.ok(), B(rel.var(0)))), ("a pool that does not exist yet", bnot(pools(x.S0).has(k)))]
    for w, c in conds:
        only_if(ctx, n, r, w, c)
    whenever(ctx, n, r, "the pool is new and its parameters are valid", band(*[c for _, c in conds], sp.ok(), bnot(in_list(x.S0, k)),
                                                                                        gt(65535, x.S0.pool_keys.pool_keys_length)))
    z = pool(x.S0, k)
    new = upd(z, liquidity=iconst(0), sqrt_price=sp.var(0), current_tick_index=tick_, fee_growth_global_x=iconst(0),
              fee_growth_global_y=iconst(0), fee_protocol_token_x=iconst(0), fee_protocol_token_y=iconst(0), start_timestamp=now(r),
              last_timestamp=now(r), fee_receiver=x.S0.config.admin)
    ctx.same(n + ": pools", x, pool_opt(x.S1, g.K), ite(g.K.eq(k), option(TRUE, new), pool_opt(x.S0, g.K)), TRUE, whole(r), "pool after creation")


def spec_pool_list(ctx):
    """the enumerable list of pools and the set of pools stay in step"""
    n = "create_pool"
    r = ctx.run(n)
    x = r.exit
    g = G(r)
    k = ordered(r, r.args[1], r.args[2], r.args[3])
    L0, L1 = x.S0.pool_keys, x.S1.pool_keys
    c0, c1 = L0.pool_keys_length.n, L1.pool_keys_length.n
    Q = V(r.P, sym("Q", "u16"), "u16")
    m0, m1 = L0.pool_keys_by_index, L1.pool_keys_by_index
    ctx.same(n + ": number of pools grows by one", x, c1, t.add(c0, iconst(1)), TRUE, whole(r), "number of pools")
    ctx.same(n + ": listed pools", x, option(m1.has(Q), m1.at(Q)), ite(iseq(Q, c0), option(TRUE, k), option(m0.has(Q), m0.at(Q))), TRUE, whole(r), "entry of the pool list")
    ctx.same(n + ": pools known to the list", x, boolv(in_list(x.S1, g.K)), boolv(bor(in_list(x.S0, g.K), g.K.eq(k))), TRUE, whole(r), "pool known to the list")


# ------------------------------------------------------------------ positions
def dense(S, U, J):
    """positions of a user are numbered 0 .. count-1 (representation invariant, property F03)"""
    h, c = has_position(S, U, J), gt(plen(S, U), J)
    return bnot(t.bxor(h, c))


def listlen_ok(S, U):
    return t.ge0(t.sub(iconst(2 ** 32 - 2), plen(S, U)))


def vint(P, x, ty):
    return V(P, x, ty)


def spec_transfer_position(ctx):
    n = "transfer_position"
    r = ctx.run(n)
    x = r.exit
    S0, S1 = x.S0, x.S1
    c, i, v = r.caller, r.args[1], r.args[2]
    g = G(r)
    last = V(r.P, t.sub(plen(S0, c), iconst(1)), "u32")
    end = V(r.P, plen(S0, v), "u32")
    pre = band(dense(S0, c, i), dense(S0, c, last), dense(S0, g.U, g.J), dense(S0, v, g.J), listlen_ok(S0, v), listlen_ok(S0, c))
    only_if(ctx, n, r, "the caller owns the position", has_position(S0, c, i))
    whenever(ctx, n, r, "the caller owns the position", band(has_position(S0, c, i), pre))
    same_ = c.eq(v)
    U, J = g.U, g.J
    new_len = add(plen(S0, U), when(band(U.eq(v), bnot(same_)), iconst(1)), t.neg(when(band(U.eq(c), bnot(same_)), iconst(1))))
    ctx.same(n + ": position counts", x, plen(S1, U), new_len, pre, whole(r), "number of positions")
    moved = option(TRUE, position(S0, c, i))
    after_removal = ite(iseq(J, last), option(FALSE, position(S0, c, i)), ite(iseq(J, i), option(TRUE, position(S0, c, last)), pos_opt(S0, c, J)))
    exp = ite(U.eq(v), ite(iseq(J, ite(same_, last.t, end.t)), moved, ite(same_, after_removal, pos_opt(S0, v, J))),
              ite(U.eq(c), after_removal, pos_opt(S0, U, J)))
    ctx.same(n + ": positions", x, pos_opt(S1, U, J), exp, pre, whole(r), "position list after the transfer")


def fsub(a, b):
    """difference of two fee counters, which wrap at their width"""
    d = t.sub(n_(a), n_(b))
    return ite(t.ge0(d), d, t.add(d, iconst(1 << 128)))


def growth(r, a, b):
    """difference of two fee counters as a fee counter value"""
    ty = a._ty
    return V(r.P, agg(ty, 0, [fsub(a, b)], ty), ty)


def owed(r, liq, g):
    """fees earned by a liquidity for a growth of the fee counter (defined by property E)"""
    return r.call("to_fee", g, liq).var(0).n


def inside(r, p, lo, up, lo_i=None, up_i=None):
    """fee growth inside a range: uninterpreted here, its definition is property E"""
    res = r.call("calculate_fee_growth_inside", lo_i or lo.index, lo.fee_growth_outside_x, lo.fee_growth_outside_y,
                 up_i or up.index, up.fee_growth_outside_x, up.fee_growth_outside_y, p.current_tick_index, p.fee_growth_global_x, p.fee_growth_global_y)
    return res.fld("0"), res.fld("1")


def spec_claim_fee(ctx):
    n = "claim_fee"
    r = ctx.run(n)
    x = r.exit
    S0, S1 = x.S0, x.S1
    c, i = r.caller, r.args[1]
    g = G(r)
    U, J = g.U, g.J
    q = position(S0, c, i)
    k = q.pool_key
    only_if(ctx, n, r, "the caller owns the position", has_position(S0, c, i))
    p = pool(S0, k)
    lo, up = tick(S0, k, q.lower_tick_index), tick(S0, k, q.upper_tick_index)
    gx, gy = inside(r, p, lo, up, q.lower_tick_index, q.upper_tick_index)
    fx = t.add(q.tokens_owed_x.n, owed(r, q.liquidity, growth(r, gx, q.fee_growth_inside_x)))
    fy = t.add(q.tokens_owed_y.n, owed(r, q.liquidity, growth(r, gy, q.fee_growth_inside_y)))
    ctx.same(n + ": fee in the first token", x, x.ret.fld("0").n, fx, TRUE, whole(r), "claimed amount")
    ctx.same(n + ": fee in the second token", x, x.ret.fld("1").n, fy, TRUE, whole(r), "claimed amount")
    new = upd(q, fee_growth_inside_x=gx, fee_growth_inside_y=gy, tokens_owed_x=iconst(0), tokens_owed_y=iconst(0))
    ctx.same(n + ": positions", x, pos_opt(S1, U, J), ite(band(U.eq(c), iseq(J, i)), option(TRUE, new), pos_opt(S0, U, J)), dense(S0, c, i), whole(r), "position after claiming")
    ctx.same(n + ": pools", x, pool_opt(S1, g.K), ite(g.K.eq(k), option(TRUE, upd(p, last_timestamp=now(r))), pool_opt(S0, g.K)), TRUE, whole(r), "pool after claiming")
    frame(ctx, n + " keeps ticks", r, lambda S: tick_view(S, g.K, g.I), TRUE, "a tick changes")


def tick_obs(v):
    """what matters about a tick: its net liquidity as a signed number and everything else as is"""
    P = v._P
    ch = v.liquidity_change.n
    return agg("TickView", 0, [v.index.n, ite(B(v.sign), ch, t.neg(ch)), v.liquidity_gross.n, v.sqrt_price.n, v.fee_growth_outside_x.n,
                               v.fee_growth_outside_y.n, v.seconds_outside.n], "TickView")


def tick_view(S, K, I):
    m = ticks(S)
    k = m.key(K, I)
    return ite(m.has(k), tick_obs(m.at(k)), agg("NoTick", 0, [], "NoTick"))


def spec_owner_only(ctx):
    """position operations need, and touch, only the caller's own list"""
    r = ctx.run("remove_position")
    only_if(ctx, "remove_position", r, "the caller owns the position", has_position(r.exit.S0, r.caller, r.args[1]))
    r = ctx.run("claim_fee")
    only_if(ctx, "claim_fee", r, "the caller owns the position", has_position(r.exit.S0, r.caller, r.args[1]))
    for n in ("create_position", "remove_position", "claim_fee"):
        r = ctx.run(n)
        g = G(r)
        for comp in ("position", "position count"):
            frame(ctx, "%s keeps other accounts' %s" % (n, comp), r, OBS[comp](g), bnot(g.U.eq(r.caller)), "another account's %s changes" % comp)


# ------------------------------------------------------------------ opening and closing positions
def mkagg(P, ty, **kw):
    """a struct value given by all its fields"""
    td = P.types[P.byname[ty]]
    fs = []
    for n, ft in td["v"][0]["f"]:
        x = kw.pop(n)
        x = x.t if isinstance(x, V) else x
        fty = P.tyname[ft]
        if x.op != "agg" and t.numeric(x) and fty not in t.INT_TYPES:
            x = agg(fty, 0, [x], fty)
        fs.append(x)
    assert not kw, kw
    return V(P, agg(ty, 0, fs, ty), ty)


def signed(tk):
    """net liquidity of a tick as a signed number"""
    return ite(B(tk.sign), tk.liquidity_change.n, t.neg(tk.liquidity_change.n))


def tview(index, net, gross, price, fx, fy, secs):
    return agg("TickView", 0, [n_(index), n_(net), n_(gross), n_(price), n_(fx), n_(fy), n_(secs)], "TickView")


def new_tick(r, p, i):
    """(fee counters outside, seconds outside, price) of a tick created now"""
    low = ge(p.current_tick_index, i)
    fx = vsel(r.P, low, p.fee_growth_global_x, V(r.P, agg(p.fee_growth_global_x._ty, 0, [iconst(0)], p.fee_growth_global_x._ty)))
    fy = vsel(r.P, low, p.fee_growth_global_y, V(r.P, agg(p.fee_growth_global_y._ty, 0, [iconst(0)], p.fee_growth_global_y._ty)))
    secs = ite(low, t.sub(now(r).n, p.start_timestamp.n), iconst(0))
    return fx, fy, secs, r.call("calculate_sqrt_price", i).var(0)


def clock_ok(r, p):
    """time does not run backwards (guaranteed by the chain)"""
    return ge(now(r), p.start_timestamp)


class Opening:
    def __init__(self, r):
        self.r = r
        x = r.exit
        S0 = x.S0
        self.k, self.lo, self.up, self.liq, self.slo, self.sup = r.args[1:7]
        self.p = p = pool(S0, self.k)
        self.had = {}
        self.tick = {}
        for i in (self.lo, self.up):
            tk = tick(S0, self.k, i)
            h = has_tick(S0, self.k, i)
            fx, fy, secs, price = new_tick(r, p, i)
            self.had[i] = h
            self.tick[i] = (vsel(r.P, h, tk.fee_growth_outside_x, fx), vsel(r.P, h, tk.fee_growth_outside_y, fy), ite(h, tk.seconds_outside.n, secs),
                            ite(h, tk.sqrt_price.n, price.n), ite(h, tk.liquidity_gross.n, iconst(0)), ite(h, signed(tk), iconst(0)))
        a, b = self.tick[self.lo], self.tick[self.up]
        res = r.call("calculate_fee_growth_inside", self.lo, a[0], a[1], self.up, b[0], b[1], p.current_tick_index, p.fee_growth_global_x, p.fee_growth_global_y)
        self.gx, self.gy = res.fld("0"), res.fld("1")
        self.amounts = r.call("calculate_amount_delta", p.current_tick_index, p.sqrt_price, self.liq, t.boolt(TRUE), self.up, self.lo)
        z = iconst(0)
        ty = self.liq._ty
        self.zero = V(r.P, agg(ty, 0, [z], ty), ty)


def spec_create_position(ctx):
    n = "create_position"
    r = ctx.run(n)
    x = r.exit
    S0, S1 = x.S0, x.S1
    o = Opening(r)
    k, p, w = o.k, o.p, whole(r)
    g = G(r)
    U, J = g.U, g.J
    only_if(ctx, n, r, "some liquidity", ge(o.liq, 1))
    only_if(ctx, n, r, "two different bounds", bnot(iseq(o.lo, o.up)))
    only_if(ctx, n, r, "the pool exists", pools(S0).has(k))
    only_if(ctx, n, r, "a price not below the caller's lower limit", ge(p.sqrt_price, o.slo))
    only_if(ctx, n, r, "a price not above the caller's upper limit", ge(o.sup, p.sqrt_price))
    for nm, i in (("lower", o.lo), ("upper", o.up)):
        only_if(ctx, n, r, "a valid %s bound" % nm, bor(o.had[i], r.call("check_tick", i, k.fee_tier.tick_spacing).ok()))
        lim = r.call("calculate_max_liquidity_per_tick", k.fee_tier.tick_spacing)
        only_if(ctx, n, r, "room for the liquidity at the %s bound" % nm, gt(lim, t.add(o.tick[i][4], o.liq.n)))
    ok = clock_ok(r, p)
    # the new position
    z = o.zero
    ty = position(S0, r.caller, V(r.P, iconst(0), "u32"))._ty
    tok = p.fee_protocol_token_x._ty
    zfg = V(r.P, agg(o.gx._ty, 0, [iconst(0)], o.gx._ty), o.gx._ty)
    new = mkagg(r.P, ty, pool_key=k, liquidity=o.liq, lower_tick_index=o.lo, upper_tick_index=o.up, fee_growth_inside_x=o.gx, fee_growth_inside_y=o.gy,
                last_block_number=env(r, "exec::block_height", "u32").n, tokens_owed_x=owed(r, z, growth(r, o.gx, zfg)), tokens_owed_y=owed(r, z, growth(r, o.gy, zfg)))
    pre = band(ok, dense(S0, U, J), listlen_ok(S0, r.caller))
    me = band(U.eq(r.caller), iseq(J, plen(S0, U)))
    ctx.same(n + ": positions", x, pos_opt(S1, U, J), ite(me, option(TRUE, new), pos_opt(S0, U, J)), pre, w, "position list after opening")
    ctx.same(n + ": position counts", x, plen(S1, U), t.add(plen(S0, U), when(U.eq(r.caller), iconst(1))), pre, w, "number of positions")
    ret_is(ctx, n, r, new, "returned position")
    # the pool
    act = B(o.amounts.var(0).fld("2"))
    newp = upd(p, last_timestamp=now(r), liquidity=ite(act, t.add(p.liquidity.n, o.liq.n), p.liquidity.n))
    ctx.same(n + ": pools", x, pool_opt(S1, g.K), ite(g.K.eq(k), option(TRUE, newp), pool_opt(S0, g.K)), ok, w, "pool after opening")
    # its ticks

    def view(i, up):
        fx, fy, secs, price, gross, net = o.tick[i]
        return tview(i, t.sub(net, o.liq.n) if up else t.add(net, o.liq.n), t.add(gross, o.liq.n), price, fx, fy, secs)
    hereK = g.K.eq(k)
    exp = ite(band(hereK, iseq(g.I, o.lo)), view(o.lo, False), ite(band(hereK, iseq(g.I, o.up)), view(o.up, True), tick_view(S0, g.K, g.I)))
    ctx.same(n + ": ticks", x, tick_view(S1, g.K, g.I), exp, ok, w, "tick after opening")


class Closing:
    def __init__(self, r):
        self.r = r
        S0 = r.exit.S0
        self.i = r.args[1]
        self.q = q = position(S0, r.caller, self.i)
        self.k = k = q.pool_key
        self.p = p = pool(S0, k)
        self.lo, self.up = q.lower_tick_index, q.upper_tick_index
        self.tlo, self.tup = tick(S0, k, self.lo), tick(S0, k, self.up)
        self.gx, self.gy = inside(r, p, self.tlo, self.tup, self.lo, self.up)
        self.amounts = r.call("calculate_amount_delta", p.current_tick_index, p.sqrt_price, q.liquidity, t.boolt(FALSE), self.up, self.lo)
        self.feex = t.add(q.tokens_owed_x.n, owed(r, q.liquidity, growth(r, self.gx, q.fee_growth_inside_x)))
        self.feey = t.add(q.tokens_owed_y.n, owed(r, q.liquidity, growth(r, self.gy, q.fee_growth_inside_y)))


def spec_remove_position(ctx):
    n = "remove_position"
    r = ctx.run(n)
    x = r.exit
    S0, S1 = x.S0, x.S1
    o = Closing(r)
    k, p, q, w = o.k, o.p, o.q, whole(r)
    g = G(r)
    U, J = g.U, g.J
    am = o.amounts.var(0)
    only_if(ctx, n, r, "the caller owns the position", has_position(S0, r.caller, o.i))
    ctx.same(n + ": first token paid", x, x.ret.fld("0").n, t.add(am.fld("0").n, o.feex), TRUE, w, "paid amount of the first token")
    ctx.same(n + ": second token paid", x, x.ret.fld("1").n, t.add(am.fld("1").n, o.feey), TRUE, w, "paid amount of the second token")
    # the list of positions
    last = V(r.P, t.sub(plen(S0, r.caller), iconst(1)), "u32")
    pre = band(dense(S0, r.caller, o.i), dense(S0, r.caller, last), dense(S0, U, J), listlen_ok(S0, r.caller))
    mine = ite(iseq(J, last), option(FALSE, q), ite(iseq(J, o.i), option(TRUE, position(S0, r.caller, last)), pos_opt(S0, r.caller, J)))
    ctx.same(n + ": positions", x, pos_opt(S1, U, J), ite(U.eq(r.caller), mine, pos_opt(S0, U, J)), pre, w, "position list after closing")
    ctx.same(n + ": position counts", x, plen(S1, U), t.sub(plen(S0, U), when(U.eq(r.caller), iconst(1))), pre, w, "number of positions")
    # the pool
    act = B(am.fld("2"))
    newp = upd(p, last_timestamp=now(r), liquidity=ite(act, t.sub(p.liquidity.n, q.liquidity.n), p.liquidity.n))
    ctx.same(n + ": pools", x, pool_opt(S1, g.K), ite(g.K.eq(k), option(TRUE, newp), pool_opt(S0, g.K)), TRUE, w, "pool after closing")
    # its ticks
    only_if(ctx, n, r, "no more liquidity than the lower bound records", ge(o.tlo.liquidity_gross, q.liquidity))
    only_if(ctx, n, r, "no more liquidity than the upper bound records", ge(o.tup.liquidity_gross, q.liquidity))
    ne = bnot(iseq(o.lo, o.up))

    def view(tk, i, up):
        net, gross = signed(tk), t.sub(tk.liquidity_gross.n, q.liquidity.n)
        v = tview(i, t.add(net, q.liquidity.n) if up else t.sub(net, q.liquidity.n), gross, tk.sqrt_price, tk.fee_growth_outside_x, tk.fee_growth_outside_y, tk.seconds_outside)
        return ite(iseq(gross, 0), agg("NoTick", 0, [], "NoTick"), v)
    hereK = g.K.eq(k)
    exp = ite(band(hereK, iseq(g.I, o.lo)), view(o.tlo, o.lo, False), ite(band(hereK, iseq(g.I, o.up)), view(o.tup, o.up, True), tick_view(S0, g.K, g.I)))
    ctx.same(n + ": ticks", x, tick_view(S1, g.K, g.I), exp, ne, w, "tick after closing")
    # nothing else stands in the way
    fees = [r.call("to_fee", growth(r, a, b), q.liquidity).ok() for a, b in ((o.gx, q.fee_growth_inside_x), (o.gy, q.fee_growth_inside_y))]
    U256 = (1 << 256) - 1
    credit = band(*[ge(U256, t.add(bal(S0, r.caller, tk), a)) for tk, a in ((k.token_x, t.add(am.fld("0").n, o.feex)), (k.token_y, t.add(am.fld("1").n, o.feey)))])
    sums = band(*[ge(U256, z) for z in (o.feex, o.feey, t.add(am.fld("0").n, o.feex), t.add(am.fld("1").n, o.feey))])
    netok = band(*[band(ge(U256, z), ge(z, -U256)) for z in (t.sub(signed(o.tlo), q.liquidity.n), t.add(signed(o.tup), q.liquidity.n))])
    inv = band(has_position(S0, r.caller, o.i), pools(S0).has(k), has_tick(S0, k, o.lo), has_tick(S0, k, o.up), ne, ge(q.liquidity, 1), ge(o.tlo.liquidity_gross, q.liquidity),
               ge(o.tup.liquidity_gross, q.liquidity), o.amounts.ok(), bor(bnot(act), ge(p.liquidity, q.liquidity)), *fees, credit, sums, netok, bnot(k.token_x.eq(k.token_y)),
               dense(S0, r.caller, o.i), dense(S0, r.caller, last), listlen_ok(S0, r.caller))
    whenever(ctx, n, r, "the caller owns the position and its amounts can be represented", band(inv, notified(x), apart(k, o.lo, o.up), *[marked(r, S0, k, i) for i in (o.lo, o.up)]))


def apart(k, a, b):
    """two different multiples of the spacing have different places in the bitmap: floor((s*u + M)/s) = u + floor(M/s)"""
    s = k.fee_tier.tick_spacing.n
    return bnot(t.eq0(t.sub(t.tdiv(t.add(n_(a), iconst(MAX_TICK)), s), t.tdiv(t.add(n_(b), iconst(MAX_TICK)), s))))


def notified(x):
    """the event can be sent (the chain accepts it)"""
    c = TRUE
    for at in t.batoms(x.st.pc):
        if at.op == "is" and at.args[0].op == "fn" and at.args[0].args[0] == "notify-result":
            v = t.bvar(at)
            c = band(c, bnot(v) if t.band(x.st.pc, v) == FALSE else v)
    return c


def marked(r, S, k, i):
    """tick i is valid for its pool and marked in the bitmap (property F01)"""
    s = k.fee_tier.tick_spacing.n
    C_, b = tick_pos(i, s)
    return band(ge(i, -MAX_TICK), ge(MAX_TICK, i), ge(s, 1), iseq(t.trem(i.n, s), iconst(0)), t.eq0(t.sub(initialized(S, k, V(r.P, C_, "u16"), b), iconst(1))))


MONEY = ("calculate_max_liquidity_per_tick", "calculate_amount_delta", "to_fee", "calculate_fee_growth_inside", "calculate_sqrt_price", "notify-result")


def marks(ctx, n, r, k, changed, pre=TRUE, also=()):
    """the tick bitmap changes exactly at the given ticks of pool k"""
    x = r.exit.focus(MONEY, (r.exit.S0.balances.t, poslen(r.exit.S0).t) + tuple(v.t for tk in also for v in (tk.sign, tk.liquidity_change)))
    g = G(r)
    N = sym("N", "u8")
    exp = initialized(x.S0, g.K, g.C, N)
    for i, c in changed:
        C_, b = tick_pos(i, k.fee_tier.tick_spacing)
        hit = band(g.K.eq(k), c, t.eq0(t.sub(g.C.n, C_)), t.eq0(t.sub(N, b)))
        exp = ite(hit, t.sub(iconst(1), exp), exp)
    ctx.same(n + ": tick bitmap", x, initialized(x.S1, g.K, g.C, N), exp, pre, whole(r), "mark of a tick")


def spec_marks(ctx):
    """a tick's mark is set when it is created and cleared when it is removed, and no other mark changes"""
    n = "create_position"
    r = ctx.run(n)
    S0 = r.exit.S0
    k, lo, up = r.args[1:4]
    marks(ctx, n, r, k, [(lo, bnot(has_tick(S0, k, lo))), (up, bnot(has_tick(S0, k, up)))], band(bnot(iseq(lo, up)), two_tokens(k)))
    for i, nm in ((lo, "lower"), (up, "upper")):
        mark_of(ctx, n, r, k, i, bnot(has_tick(S0, k, i)), nm, False)
    n = "remove_position"
    r = ctx.run(n)
    o = Closing(r)
    gone = [iseq(tk.liquidity_gross.n, o.q.liquidity.n) for tk in (o.tlo, o.tup)]
    marks(ctx, n, r, o.k, [(o.lo, gone[0]), (o.up, gone[1])], band(bnot(iseq(o.lo, o.up)), two_tokens(o.k)), (o.tlo, o.tup))
    for i, c, nm in ((o.lo, gone[0], "lower"), (o.up, gone[1], "upper")):
        mark_of(ctx, n, r, o.k, i, c, nm, True)


def two_tokens(k):
    """pools are created for two different tokens only (property F04)"""
    return bnot(k.token_x.eq(k.token_y))


def mark_of(ctx, n, r, k, i, cond, nm, before):
    """a tick about to be created is unmarked, one about to be removed is marked"""
    x = r.exit.focus(MONEY, (r.exit.S0.balances.t,))
    C_, b = tick_pos(i, k.fee_tier.tick_spacing)
    v = initialized(x.S0, k, V(r.P, C_, "u16"), b)
    ctx.same("%s: the %s tick was %s" % (n, nm, "marked" if before else "unmarked"), x, v, iconst(1 if before else 0), cond, whole(r), "mark of the tick before the call")


def spec_tick_index(ctx):
    """a tick is stored under its own index"""
    for n in entries(ctx):
        if n not in MAY["tick"]:
            continue
        r = ctx.run(n)
        g = G(r)
        ty = g.I._ty

        def obs(S):
            m = ticks(S)
            k = m.key(g.K, g.I)
            return ite(m.has(k), m.at(k).index.n, g.I.n)
        frame(ctx, "%s: ticks keep their own index" % n, r, obs, TRUE, "a tick is stored under another index than its own")


def spec_dense(ctx):
    """positions of an account are numbered without gaps"""
    for n in ("create_position", "remove_position", "transfer_position"):
        r = ctx.run(n)
        x = r.exit
        x = x.focus(MONEY, tuple(m.t for m in (x.S0.balances, ticks(x.S0), bitmap(x.S0), pools(x.S0))))
        S0, S1, c = x.S0, x.S1, r.caller
        g = G(r)
        U, J = g.U, g.J
        at = {c} if n != "transfer_position" else {c, r.args[2]}
        pre = band(dense(S0, U, J), *[listlen_ok(S0, u) for u in at])
        for u in at:
            pre = band(pre, dense(S0, u, J))
            if n != "create_position":
                pre = band(pre, dense(S0, c, V(r.P, t.sub(plen(S0, c), iconst(1)), "u32")), dense(S0, c, r.args[1]))
        h1, c1 = has_position(S1, U, J), gt(plen(S1, U), J)
        ctx.same("%s: positions are numbered without gaps" % n, x, boolv(h1), boolv(c1), pre, whole(r), "a gap in the list of positions")
