"""Token transfers: what leaves the exchange, what is credited when, and what a reply does."""
import re
from .vocab import *
from .state import *
from .state import TRANSFERS, NATIVE
from .ops import only_if, ret_is
from eng.spec import Exit, equiv, TooHard
from eng import spec

GAS = 21_200_000_000
COST = 42_400_200_000
DEPOSIT, WITHDRAWAL = 0, 1
U256 = (1 << 256) - 1


def vara(r):
    ty = r.caller._ty
    P = r.P
    arr = P.tyname[P.types[P.byname[ty]]["v"][0]["f"][0][1]]
    return V(P, agg(ty, 0, [agg(arr, 0, [iconst(0)] * 32, arr)], ty), ty)


def program(r):
    return V(r.P, mk("sym", ("env::exec::program_id",), r.caller._ty), r.caller._ty)


class Sent:
    """one outgoing message that expects a reply, with the hook registered on its reply"""

    def __init__(self, r, e, hooks):
        self.e, self.pc, self.r = e, e.pc, r
        self.dest = V(r.P, e.args[0], r.caller._ty)
        self.payload = e.args[1]
        self.rest = e.args[2:]
        fty = next(r.P.tyname[r.P.types[r.P.byname[n]]["v"][0]["f"][0][1]] for n in [e.ret.ty])
        self.ok = t.is_variant(e.ret, 0, 2)
        self.future = V(r.P, proj(e.ret, 0, 0, fty), fty)
        self.id = self.future.waiting_reply_to
        self.hooks = [h for h in hooks if h.args[0] is self.future.t]

    def hooked(self):
        """the hook was accepted"""
        return bor(*[band(h.pc, t.is_variant(h.ret, 0, 2)) for h in self.hooks])

    def reply(self, tag):
        ty = next(n for n in self.r.P.tyname if n.startswith("sails_rs::Result<(sails_rs::String, sails_rs::String, bool),") or "Result<(sails_rs::String, sails_rs::String, bool)," in n)
        return V(self.r.P, mk("reply", (self.future.t, tag), ty), ty)

    def success(self, tag):
        v = self.reply(tag)
        return band(v.ok(), B(v.var(0).fld("2")))


def sent(r):
    hooks = r.events("gear")
    hooks = [e for e in hooks if e.name.split("::")[-1] == "handle_reply"]
    return [Sent(r, e, hooks) for e in r.events("gear") if e.name.split("::")[-1] not in ("handle_reply", "reply", "reply_bytes", "up_to", "exactly")]


def flat(x):
    """the parts of an encoded request, in order"""
    while x.op in ("at", "deref"):
        x = x.args[0]
    if x.op == "fn" and len(x.args) == 2 and isinstance(x.args[1], t.T):
        nm = x.args[0].split("<")[0].split("::")[-1]
        y = x.args[1]
        while y.op in ("at", "deref"):
            y = y.args[0]
        if nm == "concat" and y.op == "agg":
            out = []
            for z in y.args[2:]:
                f = flat(z)
                if f is None:
                    return None
                out += f
            return out
        if nm == "encode":
            if y.op == "agg" and y.args[0].startswith("("):
                out = []
                for z in y.args[2:]:
                    while z.op in ("at", "deref"):
                        z = z.args[0]
                    out.append(z)
                return out
            return [y]
    return None


class Leg:
    """one token of a call, with the amount to move"""

    def __init__(self, r, tok, amount, kind, none=FALSE):
        self.r, self.tok, self.amount, self.kind, self.none = r, tok, amount, kind, none
        self.on = ge(amount, 1)

    def ends(self):
        c, p = self.r.caller, program(self.r)
        return (c, p) if self.kind == DEPOSIT else (p, c)

    def is_sent_by(self, s, R, pc):
        """message s is this leg's request"""
        f = flat(s.payload)
        if f is None or len(f) != 5:
            return FALSE
        a, b = self.ends()
        strs = [x.args[0] if x.op == "str" else None for x in f[:2]]
        if strs != ["Vft", "TransferFrom"]:
            return FALSE
        aty = self.r.caller._ty
        c = band(s.dest.eq(self.tok), V(self.r.P, f[2], aty).eq(a), V(self.r.P, f[3], aty).eq(b), iseq(unwrapn(self.r.P, f[4]), self.amount))
        return c


def unwrapn(P, x):
    return spec.unwrap(P, x, x.ty)


def amountv(P, n):
    ty = next(x for x in P.tyname if x.endswith("token_amount::TokenAmount"))
    return V(P, agg(ty, 0, [n_(n)], ty), ty)


def opt_amount(o):
    """(given, value) of an optional amount"""
    return o.some(), o.var(1).n


def has_bal(S, u, tok):
    b = S.balances
    return band(b.has(u), b.at(u).has(tok))


def legs(name, r):
    a, S = r.args, r.S0
    P = r.P
    c = r.caller
    if name == "deposit_single_token":
        return [Leg(r, a[1], a[2].n, DEPOSIT)]
    if name == "deposit_token_pair":
        return [Leg(r, x.fld("0"), x.fld("1").n, DEPOSIT) for x in a[1:3]]
    out = []
    for tok, o in ([(a[1], a[2])] if name == "withdraw_single_token" else [(x.fld("0"), x.fld("1")) for x in a[1:3]]):
        g, v = opt_amount(o)
        out.append(Leg(r, tok, ite(g, v, bal(S, c, tok)), WITHDRAWAL, bnot(g)))
    return out


def needs(name, r, ls):
    """what a call must satisfy to go ahead at all"""
    c, S = r.caller, r.S0
    req = []
    pair = len(ls) == 2
    if pair:
        req.append(("two different tokens", bnot(ls[0].tok.eq(ls[1].tok))))
    for i, l in enumerate(ls):
        w = " (%s token)" % ("first", "second")[i] if pair else ""
        if l.kind == DEPOSIT:
            req.append(("a balance that can take the amount" + w, ge(U256, t.add(bal(S, c, l.tok), l.amount))))
        else:
            req.append(("a balance that covers the amount" + w, bor(l.none, ge(bal(S, c, l.tok), l.amount))))
        if not pair and l.kind == WITHDRAWAL:
            req.append(("an amount" + w, bor(l.none, l.on)))
        if not pair and l.kind == DEPOSIT:
            req.append(("an amount" + w, l.on))
        req.append(("a token other than the native coin" + w, bor(bnot(l.on) if pair or l.kind == WITHDRAWAL else FALSE, bnot(l.tok.eq(vara(r))))))
        req.append(("a caller other than the exchange" + w, bor(bnot(l.on), bnot(c.eq(program(r))))))
    return req


def segments(r):
    """(suspension exits with their event, later exits)"""
    aw = [(e, r.at_event(e)) for e in r.I.evlist() if e.kind == "await"]
    lv = [(e, r.at_event(e)) for e in r.I.evlist() if e.kind == "leave"]
    return aw, lv


def anyof(cs):
    return bor(*cs) if cs else FALSE


def spec_requests(name):
    """what a call does before it waits for the tokens"""
    def go(ctx):
        r = ctx.run(name)
        P, w, c = r.P, whole(r), r.caller
        ls = legs(name, r)
        ss = sent(r)
        aw, lv = segments(r)
        g = G(r)
        U, TOK = g.U, g.TOK
        req = needs(name, r, ls)
        ctx.ob("%s: waits for the token" % name, len(aw) >= 1, "never waits for a reply", w)
        gasok = TRUE
        for e, x in aw:
            for at in t.batoms(x.pc):
                for y in freshes(at, "gas_available"):
                    gasok = band(gasok, ge(y, 2 * COST))
        for s in ss:
            for i, l in enumerate([iconst(GAS), iconst(0), iconst(GAS)]):
                v = s.rest[i] if i < len(s.rest) else None
                if i != 1:
                    ctx.ob("%s: %s" % (name, ("gas of the request", "", "gas for handling the reply")[i]), v is not None and v.op == "int" and v.args[0] == l.args[0],
                           "the message's gas is %s" % (t.show(v, 3) if v is not None else "unspecified"), w)
                else:
                    ctx.ob("%s: the request carries no coins" % name, v is l, "the message's value is %s" % (t.show(v, 3) if v is not None else "unspecified"), w)
            ctx.ob("%s: every request has one reply hook" % name, len(s.hooks) == 1, "%d reply hooks" % len(s.hooks), w)
        for i, (e, x) in enumerate(aw):
            k = "%s, waiting point %d" % (name, i + 1)
            before = [s for s in ss if s.e.seq < e.seq and band(x.pc, s.pc) != FALSE]
            for what, q in req:
                ctx.implies("%s: requires %s" % (k, what), x, q, None, w, "tokens are requested without " + what)
            # the requests are exactly the legs
            for s in before:
                ctx.implies("%s: every request moves a stated amount" % k, x, bor(bnot(s.pc), band(s.ok, s.hooked(), anyof([band(l.on, l.is_sent_by(s, r.R, x.pc)) for l in ls]))), None, w,
                            "a message other than the stated transfer is sent")
            for j, l in enumerate(ls):
                here = anyof([band(s.pc, s.dest.eq(l.tok)) for s in before])
                ctx.implies("%s: a request for every token%s" % (k, " %d" % (j + 1) if len(ls) == 2 else ""), x, bor(bnot(l.on), here), None, w, "no request is sent for a token")
                ctx.implies("%s: no request for nothing%s" % (k, " %d" % (j + 1) if len(ls) == 2 else ""), x, bor(l.on, bnot(here)), None, w, "a request is sent although nothing is to be moved")
            for p in range(len(before)):
                for q in range(p):
                    ctx.implies("%s: requests differ" % k, x, bor(bnot(before[p].pc), bnot(before[q].pc), bnot(before[p].dest.eq(before[q].dest))), None, w, "the same token is requested twice")
            # what is recorded
            m0, m1 = x.S0.awaiting_transfers, x.S1.awaiting_transfers
            vty = m1.valty()
            exp = await_opt(x.S0, g.AW)
            for s in reversed(before):
                ent = entry(r, m1, ls[0].kind, c, sel_amount(ls, s))
                exp = ite(band(s.pc, g.AW.eq(m1.key(s.id, s.dest))), option(TRUE, ent), exp)
            ctx.same("%s: pending transfers" % k, x, await_opt(x.S1, g.AW), exp, TRUE, w, "pending transfer")
            d = iconst(0)
            if ls[0].kind == WITHDRAWAL:
                for l in ls:
                    d = t.add(d, when(band(U.eq(c), TOK.eq(l.tok)), l.amount))
            ctx.same("%s: balances" % k, x, bal(x.S1, U, TOK), t.sub(bal(x.S0, U, TOK), d), TRUE, w, "balance")
        # completeness
        full = band(r.S0pc if hasattr(r, "S0pc") else t.is_variant(r.S0opt, 1, 2), gasok, *[q for _, q in req])
        went = anyof([x.st.pc for _, x in aw])
        ok = band(full, anyof([l.on for l in ls]))
        for s in ss:
            ok = band(ok, bor(bnot(s.pc), s.ok))
            for h in s.hooks:
                ok = band(ok, bor(bnot(h.pc), t.is_variant(h.ret, 0, 2)))
        try:
            done = equiv(ite(went, iconst(1), iconst(0)), iconst(1), ok, r.R, [6000])
        except TooHard:
            done = False
        ctx.ob("%s: goes ahead whenever possible" % name, done, "a valid transfer is refused", w)
    return go


def sel_amount(ls, s):
    v = ls[0].amount
    if len(ls) == 2:
        v = ite(s.dest.eq(ls[0].tok), ls[0].amount, ls[1].amount)
    return v


def entry(r, m, kind, who, amount):
    P = r.P
    ty = m.valty()
    td = P.types[P.byname[ty]]
    fs = []
    for n, f in td["v"][0]["f"]:
        fty = P.tyname[f]
        fs.append({"transfer_type": lambda: agg(fty, kind, [], fty), "account": lambda: who.t, "amount": lambda: agg(fty, 0, [n_(amount)], fty)}[n]())
    return V(P, agg(ty, 0, fs, ty), ty)


def freshes(x, name):
    out, st, seen = set(), [x], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, t.T) or y in seen:
            continue
        seen.add(y)
        if y.op == "fresh" and y.args[0] == name:
            out.add(y)
        st.extend(y.args)
    return out


def spec_outcome(name):
    """what a call reports once the replies are in"""
    def go(ctx):
        r = ctx.run(name)
        P, w, c = r.P, whole(r), r.caller
        ls = legs(name, r)
        ss = sent(r)
        aw, lv = segments(r)
        g = G(r)
        x = r.exit
        ctx.ob("%s: answers" % name, x is not None, "never returns", w)
        if x is None:
            return
        req = needs(name, r, ls)
        # reported success means every transfer succeeded and was handled
        for i, (e, y) in enumerate(aw):
            for s in [s for s in ss if s.e.seq < e.seq and band(y.pc, s.pc) != FALSE]:
                on = band(e.pc, s.pc)
                ctx.implies("%s: success means the token confirmed" % name, x, bor(bnot(on), s.success(e.tag)), None, w, "a failed transfer is reported as success")
                m = V(P, x.R(proj(e.after, 1, 0, r.invty), x.pc), r.invty).awaiting_transfers
                ctx.implies("%s: success means the reply was handled" % name, x, bor(bnot(on), bnot(m.has(m.key(s.id, s.dest)))), None, w, "an unhandled reply is reported as success")
        went = anyof([e.pc for e, _ in aw])
        ctx.implies("%s: returns without waiting only when nothing moves" % name, x, bor(went, band(*[bnot(l.on) for l in ls])), None, w, "a transfer is reported without a request")
        for what, q in req:
            ctx.implies("%s: success requires %s" % (name, what), x, q, None, w, "succeeds without " + what)
        rets = [x.ret] if len(ls) == 1 else [x.ret.fld("0"), x.ret.fld("1")]
        for i, l in enumerate(ls):
            ctx.same("%s: reported amount%s" % (name, " %d" % i if len(ls) == 2 else ""), x, rets[i].n, l.amount, TRUE, w, "reported amount")
        ctx.same("%s@return: balances" % name, x, bal(x.S1, g.U, g.TOK), bal(x.S0, g.U, g.TOK), TRUE, w, "a balance changes after the reply")
        ctx.same("%s@return: pending transfers" % name, x, await_opt(x.S1, g.AW), await_opt(x.S0, g.AW), TRUE, w, "a pending transfer changes after the reply")
        # the handler did not do its work: the entry is dropped and the failure reported
        for i, (e, y) in enumerate(lv):
            k = "%s, unhandled reply %d" % (name, i + 1)
            a = [(f, z) for f, z in aw if f.seq < e.seq and band(f.pc, e.pc) != FALSE]
            keys = []
            for f, z in a:
                for s in [s for s in ss if s.e.seq < f.seq and band(z.pc, s.pc) != FALSE]:
                    keys.append((band(f.pc, s.pc), s))
            m = y.S0.awaiting_transfers
            ctx.implies("%s: only if an entry was left" % k, y, anyof([band(on, m.has(m.key(s.id, s.dest))) for on, s in keys]), None, w, "gives up although every reply was handled")
            mine = anyof([band(on, g.AW.eq(m.key(s.id, s.dest))) for on, s in keys])
            exp = option(band(m.has(g.AW), bnot(mine)), m.at(g.AW))
            ctx.same("%s: pending transfers" % k, y, await_opt(y.S1, g.AW), exp, TRUE, w, "pending transfer")
            ctx.same("%s: balances" % k, y, bal(y.S1, g.U, g.TOK), bal(y.S0, g.U, g.TOK), TRUE, w, "balance")
    return go


def spec_hook(ctx):
    """a reply to a token transfer, whenever it arrives"""
    n = 0
    for name in ("deposit_single_token", "withdraw_single_token", "deposit_token_pair", "withdraw_token_pair"):
        r = ctx.run(name)
        w = whole(r)
        ss = {s.hooks[0].seq: s for s in sent(r) if len(s.hooks) == 1}
        for i, (e, q) in enumerate(r.replies()):
            n += 1
            s = ss.get(e.seq)
            k = "%s: reply hook %d" % (name, i)
            x = q.exit
            if s is None or x is None:
                ctx.ob(k, False, "a reply hook that is not attached to a request, or never completes", w)
                continue
            g = G(q)
            U, TOK = g.U, g.TOK
            m = x.S0.awaiting_transfers
            key = m.key(s.id, s.dest)
            ent = m.at(key)
            tup = load(q, "(sails_rs::String, sails_rs::String, bool)")
            txt = load(q, "sails_rs::String")
            from eng.models import streq
            v = tup.var(0)
            named = band(t.as_bdd(streq(v.fld("0").t, mk("str", ("Vft",), "&str"))), t.as_bdd(streq(v.fld("1").t, mk("str", ("TransferFrom",), "&str"))))
            valid = band(tup.ok(), named)
            crash = band(bnot(tup.ok()), txt.ok())
            good = band(valid, B(v.fld("2")))
            bad = bor(band(valid, bnot(B(v.fld("2")))), crash)
            pend = m.has(key)
            dep = t.is_variant(ent.transfer_type.t, DEPOSIT, 2)
            credit = band(pend, bor(band(dep, good), band(bnot(dep), bad)))
            b0 = bal(x.S0, ent.account, s.dest)
            fits = ge(U256, t.add(b0, ent.amount.n))
            here = band(credit, U.eq(ent.account), TOK.eq(s.dest), fits)
            ctx.same(k + ": balances", x, bal(x.S1, U, TOK), t.add(bal(x.S0, U, TOK), when(here, ent.amount.n)), TRUE, w, "balance after the reply")
            gone = band(bor(valid, crash), g.AW.eq(key))
            ctx.same(k + ": pending transfers", x, await_opt(x.S1, g.AW), option(band(m.has(g.AW), bnot(gone)), m.at(g.AW)), TRUE, w, "pending transfer after the reply")
            ctx.ob(k + ": always completes", complete(q), "some reply makes the hook fail", w)
            ctx.ob(k + ": sends nothing", not q.events("gear", "leave", "await"), "the hook sends messages", w)
    ctx.ob("reply hooks found", n >= 4, "only %d reply hooks" % n)


def complete(q):
    try:
        return equiv(ite(q.exit.st.pc, iconst(1), iconst(0)), iconst(1), t.is_variant(q.S0opt, 1, 2), q.R, [4000])
    except TooHard:
        return False


def load(q, tn):
    P = q.P
    ty = next(x for x in P.tyname if re.fullmatch(r"[\w:]*Result<%s, gstd::errors::Error>" % re.escape(tn), x))
    return V(P, mk("sym", ("msg::load<%s>" % tn,), ty), ty)


# ------------------------------------------------------------------ native coin
def spec_native(ctx):
    n = "deposit_vara"
    r = ctx.run(n)
    w, c, g = whole(r), r.caller, G(r)
    x = r.exit
    v = env(r, "msg::value", "u128").n
    me = band(g.U.eq(c), g.TOK.eq(vara(r)))
    ctx.same(n + ": balances", x, bal(x.S1, g.U, g.TOK), t.add(bal(x.S0, g.U, g.TOK), when(me, v)), TRUE, w, "balance")
    ctx.same(n + ": reported amount", x, x.ret.n, v, TRUE, w, "reported amount")
    try:
        done = equiv(ite(x.st.pc, iconst(1), iconst(0)), iconst(1), band(t.is_variant(r.S0opt, 1, 2), ge(U256, t.add(bal(x.S0, c, vara(r)), v))), r.R, [4000])
    except TooHard:
        done = False
    ctx.ob(n + ": accepted whenever the balance can take it", done, "coins sent along are refused", w)
    ctx.ob(n + ": sends nothing", not r.events("gear", "leave", "await"), "a deposit sends messages", w)
    n = "withdraw_vara"
    r = ctx.run(n)
    w, c, g = whole(r), r.caller, G(r)
    given, val = opt_amount(r.args[1])
    amt = ite(given, val, bal(r.S0, c, vara(r)))
    me = band(g.U.eq(c), g.TOK.eq(vara(r)))
    cs = r.commits()
    ctx.ob(n + ": completes", len(cs) >= 1, "never completes", w)
    reps = [e for e in r.events("gear")]
    for cn, x in cs:
        ctx.implies("%s@%s: an amount" % (n, cn), x, bor(bnot(given), ge(val, 1)), None, w, "nothing is withdrawn")
        ctx.implies("%s@%s: a balance that covers the amount" % (n, cn), x, bor(bnot(given), ge(bal(x.S0, c, vara(r)), val)), None, w, "more than the balance is withdrawn")
        ctx.same("%s@%s: balances" % (n, cn), x, bal(x.S1, g.U, g.TOK), t.sub(bal(x.S0, g.U, g.TOK), when(me, amt)), TRUE, w, "balance")
        here = [e for e in reps if band(x.pc, e.pc) != FALSE]
        cnt = iconst(0)
        for e in here:
            cnt = t.add(cnt, when(e.pc, iconst(1)))
            ctx.ob("%s@%s: pays its caller" % (n, cn), e.name.split("::")[-1] == "reply", "coins are sent by %s" % e.name, w)
            ctx.same("%s@%s: coins paid out" % (n, cn), x, e.args[-1], amt, e.pc, w, "coins sent to the caller")
            pl = e.args[0]
            parts = [plainly(z) for z in pl.args[2:]] if pl.op == "agg" else []
            ok = len(parts) == 3 and [z.args[0] if z.op == "str" else None for z in parts[:2]] == ["Service", "WithdrawVara"]
            ctx.ob("%s@%s: form of the answer" % (n, cn), ok, "the answer is not of the form the service promises", w)
            if ok:
                ctx.same("%s@%s: reported amount" % (n, cn), x, unwrapn(r.P, parts[2]), amt, e.pc, w, "reported amount")
        ctx.same("%s@%s: pays once" % (n, cn), x, cnt, iconst(1), TRUE, w, "number of payments")
    full = band(t.is_variant(r.S0opt, 1, 2), bor(bnot(given), band(ge(val, 1), ge(bal(r.S0, c, vara(r)), val))), ge((1 << 128) - 1, amt))
    for e in reps:
        full = band(full, bor(bnot(e.pc), t.is_variant(e.ret, 0, 2)))
    try:
        done = equiv(ite(anyof([x.st.pc for _, x in cs]), iconst(1), iconst(0)), iconst(1), full, r.R, [4000])
    except TooHard:
        done = False
    ctx.ob(n + ": paid whenever covered", done, "a covered withdrawal is refused", w)


def plainly(z):
    while z.op in ("at", "deref"):
        z = z.args[0]
    return z


def spec_silent(ctx):
    """no other entry sends messages or coins"""
    for n in sorted(services(ctx.P)):
        if n in TRANSFERS or n in NATIVE:
            continue
        r = ctx.run(n)
        bad = [e for e in r.events("gear", "leave", "await")]
        ctx.ob("%s sends nothing" % n, not bad, "sends: " + ", ".join(sorted({e.name for e in bad})), whole(r))
