"""Who gains and who loses what: the balances the contract keeps for its users."""
from .vocab import *


def entries(ctx):
    return sorted(n for n in services(ctx.P) if n not in ("new", "seed"))


def where(r):
    return r.f["key"]


def delta(name, r, x, cname, U, TOK):
    """what a successful call does to U's balance of TOK (None: nothing)"""
    me = U.eq(r.caller)
    a = r.args

    def d(tok, amt, cond=TRUE):
        return when(band(me, TOK.eq(tok), cond), n_(amt))
    if name == "swap":
        xy = B(a[2])
        k = a[1]
        tin = V(r.P, ite(xy, k.token_x.t, k.token_y.t), k.token_x._ty)
        tout = V(r.P, ite(xy, k.token_y.t, k.token_x.t), k.token_x._ty)
        return t.sub(d(tout, x.ret.amount_out), d(tin, x.ret.amount_in))
    if name == "create_position":
        k = a[1]
        am = position_amounts(r, x, True)
        return t.neg(add(d(k.token_x, am[0]), d(k.token_y, am[1])))
    if name in ("remove_position", "claim_fee"):
        k = position(x.S0, r.caller, a[1]).pool_key
        return add(d(k.token_x, x.ret.fld("0")), d(k.token_y, x.ret.fld("1")))
    if name == "withdraw_protocol_fee":
        k = a[1]
        p = pool(x.S0, k)
        return add(d(k.token_x, p.fee_protocol_token_x), d(k.token_y, p.fee_protocol_token_y))
    return None


def position_amounts(r, x, add_):
    """(x, y) token amounts of changing a position by the given liquidity, in terms of the amount function"""
    a = r.args
    k = a[1]
    p = pool(x.S0, k)
    lo, up = a[2], a[3]
    res = r.call("calculate_amount_delta", p.current_tick_index, p.sqrt_price, a[4], t.boolt(TRUE if add_ else FALSE), up, lo)
    am = res.var(0)
    return am.fld("0"), am.fld("1")


def check_delta(ctx, name, r, x, cname, extra=TRUE):
    U, TOK = user(r), user(r, "TOK")
    d = delta(name, r, x, cname, U, TOK)
    b0, b1 = bal(x.S0, U, TOK), bal(x.S1, U, TOK)
    ctx.same("%s@%s: balance' = balance + delta" % (name, cname), x, b1, add(b0, d), extra, where(r), "recorded balance after %s" % name)


SYNC = ("swap", "create_position", "remove_position", "claim_fee", "withdraw_protocol_fee")
CHANGES = SYNC + ("swap_route", "deposit_vara", "withdraw_vara", "withdraw_single_token", "withdraw_token_pair")


def spec_b01(ctx):
    nrep = 0
    for n in entries(ctx):
        r = ctx.run(n)
        U, TOK = user(r), user(r, "TOK")
        me = U.eq(r.caller)
        cond = bnot(me) if n in CHANGES else TRUE
        frame(ctx, n, r, lambda S: bal(S, U, TOK), cond, "another user's balance changes" if n in CHANGES else "balance changes")
        for i, (e, q) in enumerate(r.replies()):
            nrep += 1
            y = q.exit
            if y is None:
                ctx.ob("%s: reply hook %d" % (n, i), False, "the reply hook never completes", where(r))
                continue
            # whoever is credited is the account some pending transfer of this contract names
            for cn, y in q.commits():
                ctx.same("%s: reply hook %d@%s: only the recorded account" % (n, i, cn), y, bal(y.S1, U, TOK), bal(y.S0, U, TOK),
                         bnot(hook_account(e, y, U)), where(r), "a balance other than the recorded account's changes")
    ctx.ob("reply hooks found", nrep >= 4, "only %d reply hooks" % nrep)


def hook_account(e, y, U):
    m = y.S0.awaiting_transfers
    # the hook's own captured identifiers select the entry: any entry it reads is keyed by them
    ks = set()
    collect_keys(y.S1opt, m.t, ks)
    c = FALSE
    for k in ks:
        c = bor(c, band(m.has(V(m._P, k, m.keyty())), m.at(V(m._P, k, m.keyty())).account.eq(U)))
    return c


def collect_keys(x, m, out, seen=None):
    """keys at which map m is read inside x"""
    seen = seen if seen is not None else set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, t.T) or y in seen:
            continue
        seen.add(y)
        if y.op == "sel" and y.args[0] is m:
            out.add(y.args[1])
        st.extend(y.args)


def spec_b02(ctx):
    r = ctx.run("swap")
    check_delta(ctx, "swap", r, r.exit, "return")


def spec_b03(ctx):
    r = ctx.run("create_position")
    check_delta(ctx, "create_position", r, r.exit, "return")


def spec_b04(ctx):
    r = ctx.run("remove_position")
    check_delta(ctx, "remove_position", r, r.exit, "return")


def spec_b05(ctx):
    r = ctx.run("claim_fee")
    check_delta(ctx, "claim_fee", r, r.exit, "return")


def spec_a02(ctx):
    r = ctx.run("withdraw_protocol_fee")
    check_delta(ctx, "withdraw_protocol_fee", r, r.exit, "return")


def spec_b01_swap(ctx):
    r = ctx.run("swap")
    U, TOK = user(r), user(r, "TOK")
    frame(ctx, "swap", r, lambda S: bal(S, U, TOK), bnot(U.eq(r.caller)), "another user's balance changes")
