"""Who may change which part of the contract's state, and what every operation leaves behind."""
from .vocab import *
from eng.norm import equiv, TooHard
from eng.spec import Run

# operations of the service, by what they do
ADMIN = ("change_protocol_fee", "add_fee_tier", "remove_fee_tier", "change_fee_receiver")
POSITIONAL = ("create_position", "remove_position", "transfer_position", "claim_fee")
TRADES = ("swap", "swap_route")
TRANSFERS = ("deposit_single_token", "withdraw_single_token", "deposit_token_pair", "withdraw_token_pair")
NATIVE = ("deposit_vara", "withdraw_vara")
MUTATING = ADMIN + POSITIONAL + TRADES + TRANSFERS + NATIVE + ("create_pool", "withdraw_protocol_fee")


def entries(ctx):
    return sorted(n for n in services(ctx.P) if n not in ("new", "seed"))


def queries(ctx):
    return [n for n in entries(ctx) if n not in MUTATING]


class G:
    """generic identifiers of one run: any user, token, pool, index ..."""

    def __init__(self, r):
        P = r.P
        self.r = r
        S = r.S0
        self.U, self.TOK = user(r), user(r, "TOK")
        self.K = gkey(pools(S), "K")
        self.J = V(P, sym("J", "u32"), "u32")
        self.I = V(P, sym("I", "i32"), "i32")
        bk = gkey(bitmap(S), "C")
        self.C = bk.fld("0")
        self.AW = gkey(S.awaiting_transfers, "AW")


def option(has, v):
    """an optional value as one comparable term"""
    return ite(has, agg("Option<%s>" % v._ty, 1, [v.t], "Option<%s>" % v._ty), agg("Option<%s>" % v._ty, 0, [], "Option<%s>" % v._ty))


def pool_opt(S, K):
    m = pools(S)
    return option(m.has(K), m.at(K))


def tick_opt(S, K, I):
    m = ticks(S)
    k = m.key(K, I)
    return option(m.has(k), m.at(k))


def pos_opt(S, U, J):
    m = posmap(S)
    k = m.key(U, J)
    return option(m.has(k), m.at(k))


def chunk(S, K, C):
    m = bitmap(S)
    k = m.key(C, K)
    return ite(m.has(k), m.at(k).n, iconst(0))


def await_opt(S, k):
    m = S.awaiting_transfers
    return option(m.has(k), m.at(k))


def registry(S):
    return S.pool_keys.t


OBS = {
    "administrator": lambda g: lambda S: S.config.admin.t,
    "protocol fee": lambda g: lambda S: S.config.protocol_fee.t,
    "fee tiers": lambda g: lambda S: S.fee_tiers.t,
    "pool": lambda g: lambda S: pool_opt(S, g.K),
    "pool list": lambda g: lambda S: registry(S),
    "position count": lambda g: lambda S: plen(S, g.U),
    "position": lambda g: lambda S: pos_opt(S, g.U, g.J),
    "tick": lambda g: lambda S: tick_opt(S, g.K, g.I),
    "tick bitmap": lambda g: lambda S: chunk(S, g.K, g.C),
    "balance": lambda g: lambda S: bal(S, g.U, g.TOK),
    "pending transfer": lambda g: lambda S: await_opt(S, g.AW),
}

# which operations may change a component at all
MAY = {
    "administrator": (),
    "protocol fee": ("change_protocol_fee",),
    "fee tiers": ("add_fee_tier", "remove_fee_tier"),
    "pool": ("create_pool", "change_fee_receiver", "create_position", "remove_position", "claim_fee", "withdraw_protocol_fee") + TRADES,
    "pool list": ("create_pool",),
    "position count": ("create_position", "remove_position", "transfer_position"),
    "position": POSITIONAL,
    "tick": ("create_position", "remove_position", "claim_fee") + TRADES,
    "tick bitmap": ("create_position", "remove_position"),
    "balance": ("create_position", "remove_position", "claim_fee", "withdraw_protocol_fee") + TRADES + NATIVE + TRANSFERS,
    "pending transfer": TRANSFERS,
}


def confine(ctx, comp, names=None, cond=None, may=None, replies=True, tag=""):
    """comp keeps its value in every operation not in `may` (default MAY)"""
    may = MAY[comp] if may is None else may
    for n in names if names is not None else entries(ctx):
        r = ctx.run(n)
        g = G(r)
        obs = OBS[comp](g)
        if n not in may:
            frame(ctx, "%s keeps %s%s" % (n, comp, tag), r, obs, cond(r, g) if cond else TRUE, "%s changes" % comp)
        if replies:
            for i, (e, q) in enumerate(r.replies()):
                if comp in ("balance", "pending transfer"):
                    continue
                gq = G(q)
                frame(ctx, "%s reply hook %d keeps %s%s" % (n, i, comp, tag), q, OBS[comp](gq), TRUE, "%s changes" % comp)


def upd(v, **kw):
    """a struct value with some fields replaced"""
    P = v._P
    td = P.types[P.byname[v._ty]]
    names = [f[0] for f in td["v"][0]["f"]]
    assert all(k in names for k in kw), (kw, names)
    fs = []
    for n in names:
        if n in kw:
            x = kw[n]
            x = x.t if isinstance(x, V) else x
            fty = v.fld(n)._ty
            if x.op != "agg" and t.numeric(x) and fty not in t.INT_TYPES:
                x = agg(fty, 0, [x], fty)
            fs.append(x)
        else:
            fs.append(v.fld(n).t)
    return V(P, agg(v._ty, 0, fs, v._ty), v._ty)


def vsel(P, c, a, b):
    return V(P, ite(c, a.t, b.t), a._ty)


def spec_once(ctx):
    """deployment: the configuration given by the creator and nothing else, once, before anything"""
    P = ctx.P

    def go():
        return Run(P, find_fn(P, "new", crates=("invariant",), self_adt="InvariantProgram"))
    r = ctx.memo(("constructor",), go)
    ctx.fns |= {P.fns[i]["key"] for i in r.I.visited} if hasattr(r.I, "visited") else {r.f["key"]}
    w = r.f["key"]

    def configured(o):
        return t.is_variant(o, 1, 2)

    def sure(c, pc, R):
        try:
            return equiv(ite(c, iconst(1), iconst(0)), iconst(1), pc, R, [6000])
        except TooHard:
            return False
    x = r.exit
    ctx.ob("deployment: refused when already configured", x is not None and sure(bnot(configured(r.S0opt)), x.st.pc, r.R), "an existing exchange can be configured anew", w)
    ctx.ob("deployment: succeeds otherwise", x is not None and sure(x.st.pc, bnot(configured(r.S0opt)), r.R), "the first configuration can be refused", w)
    if x is None:
        return
    ctx.ob("deployment: leaves a configured exchange", sure(configured(x.S1opt), x.st.pc, r.R), "nothing is stored", w)
    g, S = G(r), x.S1
    cfg = r.args[0]
    for f in ("admin", "protocol_fee"):
        ctx.same("deployment: %s as given" % f, x, getattr(S.config, f).t, getattr(cfg, f).t, TRUE, w, f)
    m = S.awaiting_transfers
    for what, c in (("pool", pools(S).has(g.K)), ("tick", has_tick(S, g.K, g.I)), ("position", has_position(S, g.U, g.J)), ("pending transfer", m.has(g.AW))):
        ctx.ob("deployment: no %s" % what, sure(bnot(c), x.st.pc, r.R), "a %s exists from the start" % what, w)
    for what, v in (("balance", bal(S, g.U, g.TOK)), ("mark in a bitmap", chunk(S, g.K, g.C)), ("count of positions", plen(S, g.U)), ("count of pools", S.pool_keys.pool_keys_length.n)):
        ctx.same("deployment: no %s" % what, x, v, iconst(0), TRUE, w, what)
    tier = generic(P, g.K.fee_tier._ty, "tier")
    ctx.ob("deployment: no fee tier", sure(bnot(listed(S, tier)), x.st.pc, r.R), "a fee tier is registered from the start", w)
    ctx.ob("deployment: sends nothing", not r.events("gear", "send", "await", "leave"), "a message is sent", w)
    for n in entries(ctx):
        r = ctx.run(n)
        for k, x in r.commits():
            pre = x.st.mem.get(("PRE", r.root), r.S0opt)
            if n in MUTATING and x.st.mem.get(("PRE", r.root)) in (None, r.S0opt):
                ctx.ob("%s: nothing works before deployment (%s)" % (n, k), sure(configured(pre), x.st.pc, r.R), "the call succeeds without a configuration", r.f["key"])
            ctx.ob("%s: stays configured (%s)" % (n, k), sure(configured(x.S1opt), band(x.st.pc, configured(pre)), r.R), "the configuration is dropped", r.f["key"])


def spec_c02(ctx):
    for n in queries(ctx):
        r = ctx.run(n)
        g = G(r)
        for comp in OBS:
            frame(ctx, "%s keeps %s" % (n, comp), r, OBS[comp](g), TRUE, "a query changes " + comp)
        ctx.ob("%s sends nothing" % n, not r.events("gear", "notify", "leave", "await"), "a query sends messages or events", whole(r))
