"""The arithmetic of the exchange: every formula against its definition."""
from .vocab import *
from eng import spec, models
from eng.norm import equiv, TooHard

U128, U256 = 1 << 128, 1 << 256
ONE_SP, ONE_L, ONE_P = 10 ** 24, 10 ** 5, 10 ** 12
ONE_FG = 10 ** 28
MAX_TICK = 221818
MIN_SP, MAX_SP = 15258932000000000000, 65535383934512647000000000000


def frun(ctx, item, opaque=(), crate="invariant", adt=None):
    """a library function on generic arguments"""
    def go():
        P = ctx.P if crate == "invariant" else ctx.W
        f = fn_of(P, item, crate, adt)
        at = [P.tyname[f["locals"][i + 1]] for i in range(f["argc"])]
        op = set(opaque)
        args = [generic(P, ty, "p%d" % i).t for i, ty in enumerate(at)]
        return spec.Run(P, f, args=args, opaque=lambda fi: fi["item"] in op)
    r = ctx.memo(("frun", item, tuple(sorted(opaque)), crate, adt), go)
    ctx.fns |= {r.P.fns[i]["key"] for i in r.I.visited} if hasattr(r.I, "visited") else {r.f["key"]}
    return r


def fn_of(P, item, crate="invariant", adt=None):
    return find_fn(P, item, self_adt=adt)


def fl(a, b):
    return t.div(n_(a), n_(b))


def ce(a, b):
    """ceil(a / b)"""
    return t.div(t.add(n_(a), t.sub(n_(b), iconst(1))), n_(b))


def mulv(a, b):
    return t.mul(n_(a), n_(b))


def absd(a, b):
    a, b = n_(a), n_(b)
    d = t.sub(a, b)
    return ite(t.ge0(d), d, t.neg(d))


def fn_where(r):
    return r.f["key"]


def value_is(ctx, key, r, v, cond=TRUE, what="result"):
    """when the function succeeds its value is v"""
    x = r.exit
    td = r.P.types[r.P.byname[r.rty]]
    if td["name"].endswith("TrackableError>") or "Result<" in r.rty:
        ok = x.ret.ok()
        ctx.same(key, x, x.ret.var(0).n if not isinstance(v, (list, tuple)) else x.ret.var(0).t, v, band(ok, cond), fn_where(r), what)
    else:
        ctx.same(key, x, x.ret.n, v, cond, fn_where(r), what)


def succeeds(ctx, key, r, cond):
    """the function neither aborts nor reports an error when cond holds"""
    x = r.exit
    c = x.st.pc
    if "Result<" in r.rty:
        c = band(c, x.ret.ok())
    try:
        ok = equiv(ite(c, iconst(1), iconst(0)), iconst(1), cond, r.R, [4000])
    except TooHard:
        ok = False
    ctx.ob(key, ok, "a valid input is rejected: completes only when " + t.bshow(c, 5)[:400], fn_where(r))


def below(x, lim):
    return t.ge0(t.sub(iconst(lim - 1), n_(x)))


# ------------------------------------------------------------------ amounts of a price move
def m_delta_x(ctx, crate="invariant"):
    r = frun(ctx, "get_delta_x", crate=crate)
    a, b, L, up = r.args
    D = absd(a, b)
    num_dn, den_dn = fl(mulv(D, L), ONE_L), ce(mulv(a, b), ONE_SP)
    num_up, den_up = ce(mulv(D, L), ONE_L), fl(mulv(a, b), ONE_SP)
    one = iconst(ONE_SP)
    dn = fl(fl(t.mul(num_dn, one), den_dn), one)
    u = ce(ce(t.mul(num_up, one), den_up), one)
    sane = band(ge(a, PMIN), ge(b, PMIN))
    value_is(ctx, "x amount of a price move, paid out: rounded down", r, dn, band(bnot(B(up)), sane))
    value_is(ctx, "x amount of a price move, taken in: rounded up", r, u, band(B(up), sane))


PMIN = 10 ** 15


def m_delta_y(ctx, crate="invariant"):
    r = frun(ctx, "get_delta_y", crate=crate)
    a, b, L, up = r.args
    D = absd(a, b)
    dn = fl(fl(mulv(D, L), ONE_L), ONE_SP)
    u = ce(ce(mulv(D, L), ONE_L), ONE_SP)
    value_is(ctx, "y amount of a price move, paid out: rounded down", r, dn, bnot(B(up)))
    value_is(ctx, "y amount of a price move, taken in: rounded up", r, u, B(up))


def m_delta_total(ctx, crate="invariant"):
    """the amount functions answer whenever the amount is representable"""
    r = frun(ctx, "get_delta_y", crate=crate)
    a, b, L, up = r.args
    D = absd(a, b)
    dn = fl(fl(mulv(D, L), ONE_L), ONE_SP)
    u = ce(ce(mulv(D, L), ONE_L), ONE_SP)
    succeeds(ctx, "y amount of a price move always computed", r, band(below(dn, U256), below(u, U256)))
    r = frun(ctx, "get_delta_x", crate=crate)
    a, b, L, up = r.args
    D = absd(a, b)
    one = iconst(ONE_SP)
    dn = fl(fl(t.mul(fl(mulv(D, L), ONE_L), one), ce(mulv(a, b), ONE_SP)), one)
    u = ce(ce(t.mul(ce(mulv(D, L), ONE_L), one), fl(mulv(a, b), ONE_SP)), one)
    succeeds(ctx, "x amount of a price move always computed", r, band(below(dn, U256), below(u, U256), ge(a, PMIN), ge(b, PMIN)))


# ------------------------------------------------------------------ next price
def m_next_price_x(ctx, crate="invariant"):
    r = frun(ctx, "get_next_sqrt_price_x_up", crate=crate)
    p, L, x, add_ = r.args
    num = ce(mulv(p, L), ONE_L)
    step = t.mul(n_(p), n_(x))
    base = t.mul(n_(L), iconst(10 ** 19))
    den = ite(B(add_), t.add(base, step), t.sub(base, step))
    v = ce(t.mul(num, iconst(ONE_SP)), den)
    v = ite(iseq(x, 0), p.n, v)
    # the SDK answers an unrepresentable price with the price limit where the exchange refuses
    fit = TRUE if crate == "invariant" else bor(iseq(x, 0), band(below(v, U128), bor(bnot(B(add_)), below(den, 1 << 384))))
    value_is(ctx, "price after trading x: rounded up", r, v, band(ge(p, PMIN), bor(iseq(x, 0), ge(den, 1)), fit))
    if crate != "invariant":
        lim = ite(B(add_), iconst(MIN_SP), iconst(MAX_SP))
        over = band(ge(x, 1), ge(den, 1), ge(v, U128))
        value_is(ctx, "price after trading x: the price limit when it does not fit", r, lim, band(ge(p, PMIN), over, bor(bnot(B(add_)), below(den, 1 << 384))))
        return
    ctx.ob("price after trading x: never beyond the reserves", lambda: r.exit.same(boolv(r.exit.ret.ok()), iconst(0), band(bnot(B(add_)), ge(x, 1), t.ge0(t.sub(t.sub(step, base), iconst(1))))),
           "removing more of the first token than the pool's liquidity holds succeeds", fn_where(r))


def boolv(c):
    return ite(c, iconst(1), iconst(0))


def m_next_price_y(ctx, crate="invariant"):
    r = frun(ctx, "get_next_sqrt_price_y_down", crate=crate)
    p, L, y, add_ = r.args
    n = t.mul(n_(y), iconst(10 ** 48))
    d = t.mul(n_(L), iconst(10 ** 19))
    up = t.add(n_(p), t.div(n, d))
    dn = t.sub(n_(p), t.div(t.add(n, t.sub(d, iconst(1))), d))
    fit = (TRUE, TRUE)
    if crate != "invariant":
        fit = (band(ge(L, 1), below(up, U128)), band(ge(L, 1), ge(dn, 0)))
    value_is(ctx, "price after adding y: rounded down", r, up, band(B(add_), fit[0]))
    value_is(ctx, "price after removing y: rounded down", r, dn, band(bnot(B(add_)), fit[1]))


def m_next_price_dir(ctx, crate="invariant"):
    """which formula applies to which side of a trade"""
    for item, inn in (("get_next_sqrt_price_from_input", True), ("get_next_sqrt_price_from_output", False)):
        r = frun(ctx, item, opaque=("get_next_sqrt_price_x_up", "get_next_sqrt_price_y_down"), crate=crate)
        p, L, a, xy = r.args
        X = r.call("get_next_sqrt_price_x_up", p, L, a, t.boolt(TRUE if inn else FALSE))
        Y = r.call("get_next_sqrt_price_y_down", p, L, a, t.boolt(TRUE if inn else FALSE))
        use_x = B(xy) if inn else bnot(B(xy))
        sel = ite(use_x, X.t, Y.t)
        ok = ite(use_x, boolv(X.ok()), boolv(Y.ok()))
        ctx.same(item + ": succeeds exactly when its formula does", r.exit, boolv(r.exit.ret.ok()), ok, TRUE, fn_where(r), "outcome")
        ctx.same(item + ": value", r.exit, r.exit.ret.var(0).t, ite(use_x, X.var(0).t, Y.var(0).t), r.exit.ret.ok(), fn_where(r), "next price")


# ------------------------------------------------------------------ one step of a trade
def m_swap_step(ctx, crate="invariant"):
    op = ("get_delta_x", "get_delta_y", "get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output")
    r = frun(ctx, "compute_swap_step", opaque=op, crate=crate)
    x = r.exit
    cur, tgt, L, amount, by_in, fee = r.args
    P = r.P
    yes, no = t.boolt(TRUE), t.boolt(FALSE)
    xy = ge(cur, tgt)
    bi = B(by_in)
    tok = amount._ty
    zero = V(P, agg(tok, 0, [iconst(0)], tok), tok)

    def dx(a, b, up):
        return r.call("get_delta_x", a, b, L, yes if up else no)

    def dy(a, b, up):
        return r.call("get_delta_y", a, b, L, yes if up else no)
    after_fee = V(P, agg(tok, 0, [fl(t.mul(n_(amount), t.sub(iconst(ONE_P), n_(fee))), ONE_P)], tok), tok)
    live = ge(L, 1)
    pricety = cur._ty
    res = x.ret.var(0)
    names = [f[0] for f in P.types[P.byname[res._ty]]["v"][0]["f"]]
    for d, dn in ((xy, "selling x"), (bnot(xy), "selling y")):
        D = d is xy or d == xy
        full_in = dx(tgt, cur, True) if D else dy(cur, tgt, True)
        full_out = dy(tgt, cur, False) if D else dx(cur, tgt, False)
        nxt_in = r.call("get_next_sqrt_price_from_input", cur, L, after_fee, yes if D else no)
        nxt_out = r.call("get_next_sqrt_price_from_output", cur, L, amount, yes if D else no)
        reach = ite(bi, boolv(ge(after_fee, full_in.var(0))), boolv(ge(amount, full_out.var(0))))
        reach = t.eq0(t.sub(reach, iconst(1)))
        nxt = V(P, ite(reach, tgt.t, ite(bi, nxt_in.var(0).t, nxt_out.var(0).t)), pricety)
        hit = nxt.eq(tgt)
        # amounts of the move from the current price to the next one
        a_in = dx(nxt, cur, True).var(0) if D else dy(cur, nxt, True).var(0)
        a_out = dy(nxt, cur, False).var(0) if D else dx(cur, nxt, False).var(0)
        out = ite(band(bnot(bi), gt(a_out, amount)), amount.n, a_out.n)
        fee_amt = ite(band(bi, bnot(hit)), t.sub(amount.n, a_in.n), ce(t.mul(a_in.n, n_(fee)), ONE_P))
        ok = band(x.ret.ok(), d, live, below(ce(t.mul(a_in.n, n_(fee)), ONE_P), U256))
        w = fn_where(r)
        ctx.same("trade step, %s: next price" % dn, x, res.next_sqrt_price.n, nxt.n, ok, w, "next price")
        ctx.same("trade step, %s: amount in" % dn, x, res.amount_in.n, a_in.n, ok, w, "amount in")
        ctx.same("trade step, %s: amount out" % dn, x, res.amount_out.n, out, ok, w, "amount out")
        ctx.same("trade step, %s: fee" % dn, x, res.fee_amount.n, fee_amt, ok, w, "fee")
    ok = band(x.ret.ok(), bnot(live))
    ctx.same("trade step without liquidity: price jumps to the target", x, res.next_sqrt_price.n, tgt.n, ok, fn_where(r), "next price")
    for n in ("amount_in", "amount_out", "fee_amount"):
        ctx.same("trade step without liquidity: no %s" % n, x, res.fld(n).n, iconst(0), ok, fn_where(r), n)
    ctx.ob("trade step fields", sorted(names) == ["amount_in", "amount_out", "fee_amount", "next_sqrt_price"], "fields: %s" % names)
    succeeds(ctx, "trade step without liquidity succeeds", r, bnot(live))


# ------------------------------------------------------------------ fees
def m_fee_growth(ctx, crate="invariant"):
    r = frun(ctx, "to_fee", crate=crate, adt="FeeGrowth")
    g, L = r.args
    v = t.div(mulv(g, L), iconst(10 ** 33))
    value_is(ctx, "fee of a growth: growth times liquidity, rounded down", r, v)
    succeeds(ctx, "fee of a growth always computed", r, below(v, U256))
    r = frun(ctx, "from_fee", crate=crate, adt="FeeGrowth")
    L, fee = r.args
    v = t.div(t.mul(n_(fee), iconst(10 ** 33)), n_(L))
    value_is(ctx, "growth of a fee: fee per liquidity, rounded down", r, v)
    ctx.ob("growth of a fee that does not fit is reported", lambda: r.exit.same(boolv(r.exit.ret.ok()), iconst(0), band(ge(L, 1), bnot(below(v, U128)))), "an oversized growth is accepted", fn_where(r))
    succeeds(ctx, "growth of a fee always computed", r, band(ge(L, 1), below(v, U128)))
    m_wrapping(ctx, crate)


def wsum(a, b):
    s = t.add(n_(a), n_(b))
    return ite(t.ge0(t.sub(s, iconst(U128))), t.sub(s, iconst(U128)), s)


def wdiff(a, b):
    d = t.sub(n_(a), n_(b))
    return ite(t.ge0(d), d, t.add(d, iconst(U128)))


def m_wrapping(ctx, crate="invariant"):
    r = frun(ctx, "unchecked_add", crate=crate, adt="FeeGrowth")
    value_is(ctx, "fee counters add modulo their width", r, wsum(*r.args))
    succeeds(ctx, "fee counter addition total", r, TRUE)
    r = frun(ctx, "unchecked_sub", crate=crate, adt="FeeGrowth")
    value_is(ctx, "fee counters subtract modulo their width", r, wdiff(*r.args))
    succeeds(ctx, "fee counter subtraction total", r, TRUE)


def m_inside(ctx, crate="invariant"):
    """growth inside a range = global - below - above, each chosen by the side the price is on"""
    r = frun(ctx, "calculate_fee_growth_inside", crate=crate)
    lo, lox, loy, up, upx, upy, cur, gx, gy = r.args
    x = r.exit
    for i, (l, u, g) in enumerate(((lox, upx, gx), (loy, upy, gy))):
        below_ = ite(ge(cur, lo), l.n, wdiff(g, l))
        above = ite(gt(up, cur), u.n, wdiff(g, u))
        v = wdiff(wdiff(g, below_), above)
        ctx.same("fee growth inside a range, token %s" % "xy"[i], x, x.ret.fld(str(i)).n, v, TRUE, fn_where(r), "growth inside")
    succeeds(ctx, "fee growth inside a range total", r, TRUE)


# ------------------------------------------------------------------ amounts of a liquidity change
def m_amount_delta(ctx, crate="invariant"):
    r = frun(ctx, "calculate_amount_delta", opaque=("get_delta_x", "get_delta_y", "calculate_sqrt_price"), crate=crate)
    x = r.exit
    cur, price, L, sign, up, lo = r.args
    pl, pu = r.call("calculate_sqrt_price", lo).var(0), r.call("calculate_sqrt_price", up).var(0)
    below_, inside_ = gt(lo, cur), band(ge(cur, lo), gt(up, cur))

    def dx(a, b):
        return r.call("get_delta_x", a, b, L, sign).var(0).n

    def dy(a, b):
        return r.call("get_delta_y", a, b, L, sign).var(0).n
    ax = ite(below_, dx(pl, pu), ite(inside_, dx(price, pu), iconst(0)))
    ay = ite(below_, iconst(0), ite(inside_, dy(pl, price), dy(pl, pu)))
    res = x.ret.var(0)
    ok = x.ret.ok()
    w = fn_where(r)
    ctx.same("amounts of a range: first token", x, res.fld("0").n, ax, ok, w, "x amount")
    ctx.same("amounts of a range: second token", x, res.fld("1").n, ay, ok, w, "y amount")
    ctx.same("amounts of a range: active exactly when the price is inside", x, boolv(B(res.fld("2"))), boolv(inside_), ok, w, "active flag")
    ctx.implies("amounts of a range: bounds in order", x, ge(up, lo), ok, w, "an inverted range is accepted")
    okx = [r.call("get_delta_x", a, b, L, sign).ok() for a, b in ((pl, pu), (price, pu))]
    oky = [r.call("get_delta_y", a, b, L, sign).ok() for a, b in ((pl, pu), (pl, price))]
    fine = band(ge(up, lo), r.call("calculate_sqrt_price", lo).ok(), r.call("calculate_sqrt_price", up).ok(), *okx, *oky)
    succeeds(ctx, "amounts of a range always computed", r, fine)


# ------------------------------------------------------------------ ticks
def m_tick_bounds(ctx, crate="invariant"):
    r = frun(ctx, "calculate_max_liquidity_per_tick", crate=crate)
    s = r.args[0]
    sp = band(ge(s, 1), ge(100, s))
    value_is(ctx, "liquidity limit of a tick", r, t.div(iconst(U256 - 1), t.div(iconst(2 * MAX_TICK + 1), n_(s))), sp)
    succeeds(ctx, "liquidity limit of a tick total", r, sp)
    r = frun(ctx, "get_max_tick", crate=crate)
    s = r.args[0]
    value_is(ctx, "highest tick of a spacing", r, t.mul(t.div(iconst(MAX_TICK), n_(s)), n_(s)), ge(s, 1))
    r = frun(ctx, "get_min_tick", crate=crate)
    s = r.args[0]
    value_is(ctx, "lowest tick of a spacing", r, t.neg(t.mul(t.div(iconst(MAX_TICK), n_(s)), n_(s))), ge(s, 1))
    r = frun(ctx, "check_tick", crate=crate)
    i, s = r.args
    lim = t.mul(t.div(iconst(MAX_TICK), n_(s)), n_(s))
    valid = band(t.eq0(t.trem(n_(i), n_(s))), t.ge0(t.sub(lim, n_(i))), t.ge0(t.add(lim, n_(i))))
    ctx.same("tick validity: aligned and inside the supported range", r.exit, boolv(r.exit.ret.ok()), boolv(valid), ge(s, 1), fn_where(r), "validity")
    succeeds(ctx, "valid tick accepted", r, band(valid, ge(s, 1)))
    if crate != "invariant":
        # offered to the SDK's users only: the exchange checks the two ticks of a range one by one
        r = frun(ctx, "check_ticks", opaque=("check_tick",), crate=crate)
        lo, up, s = r.args
        both = band(ge(up, lo), r.call("check_tick", lo, s).ok(), r.call("check_tick", up, s).ok())
        ctx.same("a pair of ticks is valid: ordered, each of them valid", r.exit, boolv(r.exit.ret.ok()), boolv(both), TRUE, fn_where(r), "validity")
        succeeds(ctx, "valid pair of ticks accepted", r, both)


def m_min_out(ctx, crate="invariant"):
    r = frun(ctx, "calculate_min_amount_out", crate=crate)
    e, s = r.args
    value_is(ctx, "minimum output of a slippage tolerance: rounded up", r, ce(t.mul(n_(e), t.sub(iconst(ONE_P), n_(s))), ONE_P))
    succeeds(ctx, "minimum output always computed", r, ge(ONE_P, s))


def m_enough(ctx, crate="invariant"):
    r = frun(ctx, "is_enough_amount_to_change_price", opaque=("get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output"), crate=crate)
    x = r.exit
    a, p, L, fee, bi, xy = r.args
    tok = a._ty
    af = V(r.P, agg(tok, 0, [fl(t.mul(n_(a), t.sub(iconst(ONE_P), n_(fee))), ONE_P)], tok), tok)
    i = r.call("get_next_sqrt_price_from_input", p, L, af, xy)
    o = r.call("get_next_sqrt_price_from_output", p, L, a, xy)
    moved = ite(B(bi), boolv(bnot(i.var(0).eq(p))), boolv(bnot(o.var(0).eq(p))))
    ctx.same("does the rest of a trade move the price", x, boolv(B(x.ret.var(0))), ite(ge(L, 1), moved, iconst(1)), x.ret.ok(), fn_where(r), "answer")
    fine = bor(iseq(L, 0), band(ge(ONE_P, fee), bor(band(B(bi), i.ok()), band(bnot(B(bi)), o.ok()))))
    succeeds(ctx, "price movement test total", r, band(fine, ge(ONE_P, fee)))


# ------------------------------------------------------------------ price of a tick
def ranged(name, lo, hi):
    """a generic integer of a given range"""
    it = t.IntTy("%s[%d,%d]" % (name, lo, hi), 32, True)
    it.lo, it.hi = lo, hi
    return sym(name, it)


def cofactor(x, c, memo):
    """x where condition c holds (gates on c only)"""
    if not isinstance(x, t.T):
        return tuple(cofactor(y, c, memo) for y in x) if isinstance(x, tuple) else x
    r = memo.get(x)
    if r is None:
        from eng.norm import Rewriter, KEEP
        if x.op in KEEP:
            r = x
        elif x.op == "ite":
            g = t.brestrict(x.args[0], c)
            if g == TRUE:
                r = cofactor(x.args[1], c, memo)
            elif g == FALSE:
                r = cofactor(x.args[2], c, memo)
            else:
                r = ite(g, cofactor(x.args[1], c, memo), cofactor(x.args[2], c, memo))
        elif x.op == "poly":
            r = iconst(0)
            for m, k in x.args[0]:
                e = iconst(k)
                for y in m:
                    e = t.mul(e, cofactor(y, c, memo))
                r = t.add(r, e)
        else:
            n = tuple(cofactor(y, c, memo) for y in x.args)
            r = x if n == x.args else Rewriter().build(x.op, n, x, TRUE)
        memo[x] = r
    return r


def factor_table():
    """sqrt(1.0001)^(2^k) with 12 decimals: the square root rounded down, then repeated squaring rounded down"""
    from math import isqrt
    f = [isqrt(10001 * 10 ** 20), 1000100000000]
    while len(f) < 18:
        f.append(f[-1] * f[-1] // 10 ** 12)
    return f


def m_sqrt_price(ctx, crate="invariant"):
    P = ctx.P if crate == "invariant" else ctx.W
    f = fn_of(P, "calculate_sqrt_price", crate)
    w = f["key"]
    T = ranged("T", 1, MAX_TICK)
    table = factor_table()
    scale = iconst(10 ** 12)

    def go(arg):
        r = spec.Run(P, f, args=[arg], opaque=lambda fi: False)
        ctx.fns |= {P.fns[i]["key"] for i in r.I.visited}
        return r, V(P, r.exit.rawret, r.rty)
    for sign, arg in (("positive", T), ("negative", t.neg(T)), ("zero", iconst(0))):
        r, v = go(arg)
        ok = band(r.exit.st.pc, v.ok())
        price = v.var(0).n
        price = cofactor(price, ok, {}) if ok > 1 else price
        acc = scale
        if sign != "zero":
            for k in range(18):
                bit = t.ge0(t.sub(t.bitop("and", T, iconst(1 << k)), iconst(1)))
                acc = ite(bit, t.div(t.mul(acc, iconst(table[k])), scale), acc)
        exp = t.mul(acc if sign != "negative" else t.div(iconst(10 ** 24), acc), scale)
        ctx.ob("price of a %s tick: product of its binary powers of sqrt(1.0001)" % sign, price is exp,
               lambda: "the price is not the product of the tick's binary powers: %s, expected %s" % (t.show(price, 5)[:300], t.show(exp, 5)[:300]), w)
        rest = bnot(ok)
        ctx.ob("price of a %s tick inside the supported range exists" % sign, rest == FALSE, "a supported tick has no price: " + t.bshow(rest, 5)[:300], w)
    for lo, hi in ((MAX_TICK + 1, 2 ** 31 - 1), (-2 ** 31 + 1, -MAX_TICK - 1)):
        r, v = go(ranged("T", lo, hi))
        ctx.ob("ticks of [%d, %d] have no price" % (lo, hi), band(r.exit.st.pc if r.exit else FALSE, v.ok() if r.exit else FALSE) == FALSE, "an unsupported tick has a price", w)


# ---------------------------------------------------------------- a pool's first price
def m_relationship(ctx, crate="invariant"):
    """a price fits a tick exactly if it lies between the tick's price and that of the next tick (is the price of the last tick)"""
    r = frun(ctx, "check_tick_to_sqrt_price_relationship", opaque=("from_tick", "get_max_tick"), crate=crate)
    x = r.exit
    tick, s, price = r.args
    w = fn_where(r)
    T = tick._ty
    nxt = t.add(n_(tick), n_(s))
    at = r.call("from_tick", tick)
    up = r.call("from_tick", V(r.P, nxt, T))
    last = r.call("get_max_tick", s)
    lastv = last.var(0) if "Result" in last._ty else last
    top = r.call("from_tick", lastv)
    end = gt(nxt, MAX_TICK)
    fits = ite(end, boolv(iseq(price.n, top.var(0).n)), boolv(band(ge(price, at.var(0)), gt(up.var(0), price))))
    # a spacing that passes the range of the tick type is outside every supported range
    sane = band(ge(MAX_TICK, tick), ge(tick, -MAX_TICK))
    ctx.same("a price fits a tick exactly inside the tick's range of prices", x, boolv(B(x.ret.var(0))), fits, band(x.ret.ok(), sane), w, "answer")
    lastok = last.ok() if "Result" in last._ty else TRUE
    succeeds(ctx, "whether a price fits a tick is always answered", r, band(sane, ite_b(end, band(lastok, top.ok()), band(at.ok(), up.ok()))))


def ite_b(c, a, b):
    return t.bite(c, a, b)
