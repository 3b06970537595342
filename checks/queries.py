"""What read-only calls report."""
from .trade import *


def err(ret):
    return bnot(ret.ok())


def spec_items(ctx):
    """single values: exactly what is stored"""
    def run(n):
        r = ctx.run(n)
        return r, r.exit, r.exit.S0, r.args, whole(r)

    def found(n, r, x, has, parts, w, pre=TRUE):
        ctx.same(n + ": is found exactly when it exists", x, boolv(x.ret.ok()), boolv(has), pre, w, "whether it is found")
        for nm, got, want in parts:
            ctx.same("%s: %s" % (n, nm), x, got, want, band(has, pre), w, nm)
    n = "get_protocol_fee"
    r, x, S, a, w = run(n)
    ctx.same(n, x, x.ret, S.config.protocol_fee, TRUE, w, "reported protocol fee")
    n = "fee_tier_exists"
    r, x, S, a, w = run(n)
    ctx.same(n, x, boolv(B(x.ret)), boolv(listed(S, a[1])), TRUE, w, "whether a fee tier is registered")
    n = "get_fee_tiers"
    r, x, S, a, w = run(n)
    ctx.same(n, x, x.ret, inner(S.fee_tiers), TRUE, w, "reported fee tiers")
    n = "get_pool"
    r, x, S, a, w = run(n)
    k = ordered_key(r, a[1], a[2], a[3])
    found(n, r, x, band(bnot(a[1].eq(a[2])), pools(S).has(k)), [("pool", x.ret.var(0), pool(S, k))], w)
    n = "get_position"
    r, x, S, a, w = run(n)
    found(n, r, x, has_position(S, a[1], a[2]), [("position", x.ret.var(0), position(S, a[1], a[2]))], w)
    n = "get_tick"
    r, x, S, a, w = run(n)
    found(n, r, x, has_tick(S, a[1], a[2]), [("tick", x.ret.var(0), tick(S, a[1], a[2]))], w)
    n = "get_user_position_amount"
    r, x, S, a, w = run(n)
    ctx.same(n, x, x.ret, plen(S, a[1]), TRUE, w, "number of positions")
    n = "is_tick_initialized"
    r, x, S, a, w = run(n)
    C_, b = tick_pos(a[2], a[1].fee_tier.tick_spacing)
    ctx.same(n, x, boolv(B(x.ret)), initialized(S, a[1], V(r.P, C_, "u16"), b), TRUE, w, "mark of a tick")
    n = "get_position_with_associates"
    r, x, S, a, w = run(n)
    q = position(S, a[1], a[2])
    k, lo, up = q.pool_key, q.lower_tick_index, q.upper_tick_index
    v = x.ret.var(0)
    found(n, r, x, band(has_position(S, a[1], a[2]), pools(S).has(k), has_tick(S, k, lo), has_tick(S, k, up)),
          [("position", v.fld("0"), q), ("pool", v.fld("1"), pool(S, k)), ("lower tick", v.fld("2"), tick(S, k, lo)), ("upper tick", v.fld("3"), tick(S, k, up))], w)


def ordered_key(r, x, y, tier):
    """the key of a pool of two tokens, in the program's own order"""
    return ordered(r, x, y, tier)


LIMIT_TICKS, LIMIT_POSITION_TICKS = 21544, 17872


# ------------------------------------------------------------------ lists
def counters(L, start=None):
    """(value, end) of the counters of a loop: value, increased by one in every round"""
    out = []
    for p in L.carried():
        if t.numeric(p) and L.back.same(L.next(p), t.add(p, iconst(1))) and (start is None or L.entry.same(L.first(p), start)):
            out.append(p)
    return out


def loop_of(x, vec, what):
    it = x.norm(vec)
    while it.op == "ite":  # same list on both sides of a decision
        it = it.args[1] if phis(it.args[1]) else it.args[2]
    if it.op != "phi":
        raise AnalysisError("%s is not built up in one loop" % what)
    return Loop(x.run, it.args[0]), it


def whole_list(ctx, key, r, x, vec, it, what, w):
    """the reported list is the one the loop built, which started empty"""
    J = sym("IX", "usize")
    ety = it.ty[it.ty.index("<") + 1:-1]
    v = x.norm(vec)
    ok = v is it or (x.same(r.I.vlen(v), r.I.vlen(it)) and x.same(r.I.vidx(v, J, ety), r.I.vidx(it, J, ety)))
    ctx.ob(key + ": reported as built", ok, what + " is not what was built up", w)


def lists(ctx, key, r, x, vec, ety, start, end, at, what, w, exists=None, pre=TRUE):
    """vec lists at(start), at(start+1), ... at(end-1)"""
    L, it = loop_of(x, vec, what)
    whole_list(ctx, key, r, x, vec, it, what, w)
    J = sym("IX", "usize")
    ok, why = False, what + " is not built up element by element"
    n0, n1 = r.I.vlen(it), r.I.vlen(L.next(it))
    for c in counters(L, n_(start)):
        d = t.sub(c, n_(start))
        ih = band(t.ge0(d), t.eq0(t.sub(n0, d)))
        base = L.entry.same(r.I.vlen(L.first(it)), iconst(0))
        step = L.back.same(n1, t.add(d, iconst(1)), ih) and L.back.implies(band(gt(end, c)), ih)
        nx = r.I.vidx(L.next(it), J, ety)
        W = Rewriter(leaf={r.I.vidx(it, J, ety): at(t.add(J, n_(start))).t if isinstance(at(t.add(J, n_(start))), V) else at(t.add(J, n_(start)))}, interp=r.I)
        el = L.back.same(W(nx), at(t.add(J, n_(start))), band(ih, gt(t.add(d, iconst(1)), J), ge(J, 0)))
        fin = x.implies(ge(c, end), ih)
        if base and step and el and fin:
            ok = True
            if exists is not None:
                holds_whenever(ctx, key + ": can be begun", r, L.entry.st.pc, band(is_init(r), pre), what + " is refused", w)
                holds_whenever(ctx, key + ": goes on", r, L.back.st.pc, band(L.head.pc, pre, gt(end, c), ge(c, n_(start)), exists(c)), what + " is refused halfway", w)
                holds_whenever(ctx, key + ": can be finished", r, x.st.pc, band(L.head.pc, pre, ge(c, end)), what + " is refused at the end", w)
            break
        why = "%s: %s" % (what, "starts wrong" if not base else "grows wrong" if not step else "wrong element" if not el else "ends early")
    ctx.ob(key, ok, why, w)


def fold(ctx, key, r, x, vec, start, end, items, what, w, closed=False):
    """each of start .. end-1 (closed: .. end) in turn adds its items [(condition, value)] to the end of the list"""
    L, it = loop_of(x, vec, what)
    whole_list(ctx, key, r, x, vec, it, what, w)
    ctx.same(key + ": starts empty", L.entry, r.I.vlen(L.first(it)), iconst(0), TRUE, w, what)
    visited(ctx, key, r, x, L, start, end, what, w, closed, lambda c: additions(ctx, key, r, L, it, items(c), what, w))


def visited(ctx, key, r, x, L, start, end, what, w, closed, body):
    for c in [p for p in L.carried() if t.numeric(p) and L.entry.same(L.first(p), n_(start))]:
        if not closed and L.back.same(L.next(c), t.add(c, iconst(1))):
            ctx.implies(key + ": nothing beyond the end", L.back, gt(end, c), None, w, "%s: visits more than it should" % what)
            ctx.implies(key + ": reaches the end", x, ge(c, end), None, w, "%s: ends early" % what)
            body(c)
            return
        if closed:
            last = [p for p in L.carried() if p.ty == "bool" and L.entry.same(boolv(t.as_bdd(L.first(p))), iconst(0)) and
                    L.back.same(boolv(t.as_bdd(L.next(p))), boolv(ge(c, end)))]
            if L.back.same(L.next(c), t.add(c, iconst(1))):
                cond, fin = ge(end, c), gt(c, end)
            elif last and L.back.same(L.next(c), ite(ge(c, end), c, t.add(c, iconst(1)))):
                # an inclusive range: the flag is raised once the end was visited
                cond, fin = band(ge(end, c), bnot(t.as_bdd(last[0]))), bor(t.as_bdd(last[0]), gt(c, end))
            else:
                continue
            ctx.implies(key + ": nothing beyond the end", L.back, cond, None, w, "%s: visits more than it should" % what)
            ctx.implies(key + ": reaches the end", x, fin, None, w, "%s: ends early" % what)
            body(c)
            return
    ctx.ob(key + ": visits one after the other", False, "%s does not go through its range one by one" % what, w)


def additions(ctx, key, r, L, it, items, what, w, x=None, nxt=None):
    """one round appends the items whose condition holds, in order"""
    x = x or L.back
    nx = nxt if nxt is not None else L.next(it)
    n0, n1 = r.I.vlen(it), r.I.vlen(nx)
    J = sym("IX", "usize")
    ety = it.ty[it.ty.index("<") + 1:-1]
    ctx.same(key + ": number of entries", x, n1, t.add(n0, *[]) if not items else add(n0, *[when(c, iconst(1)) for c, v in items]), TRUE, w, what + ": number of entries")
    ctx.same(key + ": earlier entries", x, r.I.vidx(nx, J, ety), r.I.vidx(it, J, ety), band(gt(n0, J), ge(J, 0)), w, what + ": an earlier entry")
    for i, (c, v) in enumerate(items):
        pos = add(n0, *[when(c2, iconst(1)) for c2, _ in items[:i]])
        ctx.same(key + ": entry%s" % (" %d" % (i + 1) if len(items) > 1 else ""), x, r.I.vidx(nx, pos, ety), v, c, w, what + ": an entry")


def tup(P, ty, *xs):
    return V(P, agg(ty, 0, [z.t if isinstance(z, V) else z for z in xs], ty), ty)


def elem(v):
    return v._ty[v._ty.index("<") + 1:-1]


def lower(a, b):
    return ite(ge(a, b), n_(b), n_(a))


def spec_lists(ctx):
    n = "get_pool_keys"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    size, off = a[1], a[2]
    P = r.P
    ks = S0.pool_keys
    # the list by index (property F04)
    lists(ctx, n + ": listed pools", r, x, x.ret.fld("0"), elem(x.ret.fld("0")), off, lower(add(off, size), ks.pool_keys_length),
          lambda i: ks.pool_keys_by_index.at(V(P, i, "u16")), "the list of pools", w, lambda c: ks.pool_keys_by_index.has(V(P, c, "u16")), gt(1 << 16, add(off, size)))
    ctx.same(n + ": number of pools", x, x.ret.fld("1"), ks.pool_keys_length, TRUE, w, "number of pools")
    n = "get_all_positions"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    lists(ctx, n + ": listed positions", r, x, x.ret, elem(x.ret), iconst(0), plen(S0, a[1]), lambda i: position(S0, a[1], V(P, i, "u32")), "the list of positions", w, lambda c: has_position(S0, a[1], V(P, c, "u32")))
    n = "get_liquidity_ticks"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    y = under(x, x.ret.ok())
    v = y.ret.var(0)
    ety = elem(v)

    def ltick(i):
        tk = tick(S0, a[1], V(P, r.I.vidx(a[2].t, i, "i32"), "i32"))
        return tup(P, ety, tk.index, tk.liquidity_change, tk.sign)
    lists(ctx, n + ": listed ticks", r, y, v, ety, iconst(0), r.I.vlen(a[2].t), ltick, "the list of ticks", w,
          lambda c: has_tick(S0, a[1], V(P, r.I.vidx(a[2].t, c, "i32"), "i32")), ge(LIMIT_TICKS, r.I.vlen(a[2].t)))
    ctx.same(n + ": at most as many ticks as fit an answer", x, boolv(x.ret.ok()), boolv(ge(LIMIT_TICKS, r.I.vlen(a[2].t))), TRUE, w, "limit on the number of ticks")
    n = "get_user_balances"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    spec_balances(ctx, n, r, x, S0, a, w)
    n = "get_all_pools_for_pair"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    y = under(x, x.ret.ok())
    v = y.ret.var(0)
    ft = inner(S0.fee_tiers)
    tty = elem(ft)

    def pairpool(c):
        tier = V(P, r.I.vidx(ft.t, c, tty), tty)
        k = ordered_key(r, a[1], a[2], tier)
        return [(pools(S0).has(k), tup(P, elem(v), tier, pool(S0, k)))]
    fold(ctx, n, r, under(y, bnot(a[1].eq(a[2]))), v, iconst(0), r.I.vlen(ft.t), pairpool, "the list of a pair's pools", w)
    n = "get_tickmap"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    top = r.call("get_max_chunk", a[1].fee_tier.tick_spacing)
    m = bitmap(S0)

    def chunks(c):
        k = m.key(V(P, c, "u16"), a[1])
        return [(m.has(k), tup(P, elem(x.ret), V(P, c, "u16"), m.at(k)))]
    fold(ctx, n, r, x, x.ret, iconst(0), top, chunks, "the tick bitmap", w, closed=True)


def spec_balances(ctx, n, r, x, S0, a, w):
    """every recorded balance of the account, once each"""
    P = r.P
    has, m = S0.balances.has(a[1]), S0.balances.at(a[1])
    L, it = loop_of(x, x.ret, "the list of balances")
    ety = elem(x.ret)
    ok = False
    for c in counters(L, iconst(0)):
        el = V(P, r.I.vidx(L.next(it), r.I.vlen(it), ety), ety)
        k, v = el.fld("0"), el.fld("1")
        mine = mk("mapkey", (m.t, c), k._ty)
        ok = (L.entry.same(r.I.vlen(L.first(it)), iconst(0)) and L.back.same(r.I.vlen(L.next(it)), t.add(r.I.vlen(it), iconst(1))) and
              L.back.same(k, mine, has) and L.back.same(v, t.msel(m.t, mine, v._ty), has) and x.implies(ge(c, mk("len", (m.t,), "usize")), has))
        if ok:
            break
    ctx.ob(n + ": listed balances", ok, "the reported balances are not the recorded ones", w)


def spec_counts(ctx):
    """the number of ticks of a pool is the number of marks in its bitmap"""
    n = "get_liquidity_ticks_amount"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    P = r.P
    top = r.call("get_max_chunk", a[1].fee_tier.tick_spacing)
    m = bitmap(S0)
    it = x.ret.n
    L, it = loop_of(x, x.ret, "the number of ticks")

    def body(c):
        k = m.key(V(P, c, "u16"), a[1])
        ones = when(m.has(k), mk("fn", ("count_ones:u64", m.at(k).n), "u32"))
        ctx.same(n + ": each chunk counts its marks", L.back, L.next(it), t.add(it, ones), gt(1 << 32, t.add(it, ones)), w, "number of ticks")
        ctx.same(n + ": counts from nothing", L.entry, L.first(it), iconst(0), TRUE, w, "number of ticks")
    visited(ctx, n, r, x, L, iconst(0), top, "the number of ticks", w, True, body)


def spec_position_ticks(ctx):
    """the ticks of an account's positions, from a given position on, until an answer is full"""
    n = "get_position_ticks"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    P = r.P
    what = "the list of position ticks"
    ety = elem(x.ret)
    size = plen(S0, a[1])
    ids = [L for L in (Loop(r, lid) for lid, li in r.I.loopinfo.items() if li["back"] is not None) if any(p.ty == x.ret._ty for p in L.vals)]
    if len(ids) != 1:
        raise AnalysisError("%s is not built up in one loop" % what)
    L = ids[0]
    it = [p for p in L.vals if p.ty == x.ret._ty][0]
    ctx.same(n + ": starts empty", L.entry, r.I.vlen(L.first(it)), iconst(0), TRUE, w, what)
    cs = counters(L, n_(a[2]))
    ctx.ob(n + ": visits the positions one after the other", len(cs) == 1, what, w)
    if len(cs) != 1:
        return
    c = cs[0]
    q = position(S0, a[1], V(P, c, "u32"))
    hq = has_position(S0, a[1], V(P, c, "u32"))

    def tk(i):
        z = tick(S0, q.pool_key, i)
        return band(hq, has_tick(S0, q.pool_key, i)), tup(P, ety, z.index, z.fee_growth_outside_x, z.fee_growth_outside_y, z.seconds_outside)
    items = [tk(q.lower_tick_index), tk(q.upper_tick_index)]
    ctx.implies(n + ": only the account's positions", L.back, gt(size, c), None, w, what)
    additions(ctx, n, r, L, it, items, what, w)
    # ends after the last position, or with the position that fills the answer
    last, full = under(x, ge(c, size)), under(x, gt(size, c))
    ctx.same(n + ": reported as built: number", last, r.I.vlen(last.ret.t), r.I.vlen(it), TRUE, w, what)
    J = sym("IX", "usize")
    ctx.same(n + ": reported as built: entries", last, r.I.vidx(last.ret.t, J, ety), r.I.vidx(it, J, ety), TRUE, w, what)
    if full.pc != FALSE:
        additions(ctx, n + ": full answer", r, L, it, items, what, w, full, full.norm(full.ret))
        ctx.implies(n + ": ends early only when the answer is full", full, ge(r.I.vlen(full.norm(full.ret)), LIMIT_POSITION_TICKS), None, w, what + " ends early")
    ctx.implies(n + ": goes on only while the answer is not full", L.back, gt(LIMIT_POSITION_TICKS, r.I.vlen(L.next(it))), None, w, what + " goes on")


def spec_positions(ctx):
    """an account's positions from an index on, grouped by pool"""
    n = "get_positions"
    r = ctx.run(n)
    x, S0, a, w = r.exit, r.exit.S0, r.args, whole(r)
    P = r.P
    what = "the list of positions by pool"
    y = under(x, x.ret.ok())
    ret = y.ret.var(0)
    ctx.same(n + ": number of positions", y, ret.fld("1"), plen(S0, a[1]), TRUE, w, "number of positions")
    size, off = a[2], a[3]
    groups = ret.fld("0")
    gty = elem(groups)
    L, it = loop_of(y, groups, what)
    whole_list(ctx, n, r, y, groups, it, what, w)
    ctx.same(n + ": starts empty", L.entry, r.I.vlen(L.first(it)), iconst(0), TRUE, w, what)
    # the positions listed: a list of their own, or read one by one
    pty = position(S0, a[1], off)._ty
    src = [z for z in r.I.loopinfo if z != L.lid and any(p.ty.endswith("Vec<%s>" % pty) for p in Loop(r, z).vals if isinstance(p.ty, str))]
    end = lower(add(off, size), plen(S0, a[1]))
    if len(src) != 1:
        raise AnalysisError("the listed positions were not found")
    M = Loop(r, src[0])
    vec = [p for p in M.vals if isinstance(p.ty, str) and p.ty.endswith("Vec<%s>" % pty)][0]
    lists(ctx, n + ": listed positions", r, L.entry, V(P, vec, vec.ty), pty, off, end, lambda i: position(S0, a[1], V(P, i, "u32")), "the slice of positions", w)
    cs = [c for c in counters(L, iconst(0)) if y.implies(ge(c, r.I.vlen(vec)))]
    ctx.ob(n + ": every listed position is grouped", bool(cs), "a listed position is left out", w)
    if not cs:
        return
    c = cs[0]
    same = band(*[t.eq0(t.sub(c2, c)) for c2 in counters(L, iconst(0))])
    q = V(P, r.I.vidx(vec, c, pty), pty)
    K, J, M_ = q.pool_key, sym("IX", "usize"), sym("MX", "usize")
    nx = L.next(it)
    n0, n1 = r.I.vlen(it), r.I.vlen(nx)
    pairs_ty = V(P, r.I.vidx(it, J, gty), gty).fld("1")._ty
    ity = pairs_ty[pairs_ty.index("<") + 1:-1]
    idx = t.add(n_(off), c)

    def item(v, j, m):
        return V(P, r.I.vidx(v.fld("1").t, m, ity), ity)

    def group(v, j):
        return V(P, r.I.vidx(v, j, gty), gty)
    new = band(same, t.eq0(t.sub(n1, t.add(n0, iconst(1)))))
    grown = band(same, t.eq0(t.sub(n1, n0)))
    fits = band(gt(1 << 32, idx), ge(c, 0))  # c counts up from nought
    ctx.implies(n + ": at most one group is added", L.back, bor(t.eq0(t.sub(n1, t.add(n0, iconst(1)))), t.eq0(t.sub(n1, n0))), None, w, what)
    b = under(L.back, new)
    for nm, p, want in (("pool", group(nx, n0).fld("0"), pool(S0, K)), ("size", V(P, r.I.vlen(group(nx, n0).fld("1").t), "usize"), iconst(1)),
                        ("position", item(group(nx, n0), n0, iconst(0)).fld("0"), q), ("index", item(group(nx, n0), n0, iconst(0)).fld("1"), idx)):
        ctx.same(n + ": new group's " + nm, b, p, want, fits, w, what)
    ctx.same(n + ": other groups stay", b, group(nx, J), group(it, J), band(ge(J, 0), gt(n0, J)), w, what)
    b = under(L.back, grown)
    f = [p for p in sub_phis(b.norm(nx)) if t.numeric(p) and p not in L.vals and p in counters(Loop(r, p.args[0]), iconst(0)) and b.implies(gt(n0, p))]
    f = [p for p in f if b.same(group(nx, J), group(it, J), bnot(t.eq0(t.sub(J, p))))]
    ctx.ob(n + ": only one group grows", len(f) == 1, what, w)
    if len(f) != 1:
        return
    f = f[0]
    b = under(b, band(ge(f, 0), *[t.eq0(t.sub(c2, f)) for c2 in counters(Loop(r, f.args[0]), iconst(0))]))  # counters from nought
    g0, g1 = group(it, f), group(nx, f)
    m0 = r.I.vlen(g0.fld("1").t)
    ctx.same(n + ": grown group's pool", b, g1.fld("0"), g0.fld("0"), TRUE, w, what)
    ctx.same(n + ": grown group's size", b, r.I.vlen(g1.fld("1").t), t.add(m0, iconst(1)), TRUE, w, what)
    ctx.same(n + ": grown group's earlier positions", b, item(g1, f, M_), item(g0, f, M_), gt(m0, M_), w, what)
    ctx.same(n + ": grown group's new position", b, item(g1, f, m0).fld("0"), q, TRUE, w, what)
    ctx.same(n + ": grown group's new index", b, item(g1, f, m0).fld("1"), idx, fits, w, what)
    ctx.implies(n + ": the group of the position's pool", b, item(g0, f, iconst(0)).fld("0").pool_key.eq(K), None, w, what)


def sub_phis(x):
    out, st, seen = set(), [x], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, t.T) or y in seen:
            continue
        seen.add(y)
        if y.op == "phi":
            out.add(y)
        st.extend(y.args)
        if y.op == "ite":
            for at in t.batoms(y.args[0]):
                st.append(at)
    return out
