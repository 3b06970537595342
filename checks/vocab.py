"""Vocabulary shared by the properties: parts of the contract's state and of the environment."""
from eng import models, terms as t
from eng.terms import TRUE, FALSE, bnot, ite, iconst, agg, sym, mk, proj
from eng.spec import V, add, when, bal, services, unwrap, fcall, find_fn, AnalysisError

neg = t.neg


def band(*cs):
    r = TRUE
    for c in cs:
        r = t.band(r, c)
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = t.bor(r, c)
    return r


def ge(a, b):
    """a >= b (integers)"""
    return t.ge0(t.sub(n_(a), n_(b)))


def gt(a, b):
    return t.ge0(t.sub(t.sub(n_(a), n_(b)), iconst(1)))


def n_(a):
    if isinstance(a, int):
        return iconst(a)
    return a.n if isinstance(a, V) else a


def iseq(a, b):
    if isinstance(b, int) or isinstance(a, int):
        return t.eq0(t.sub(n_(a), n_(b)))
    return a.eq(b) if isinstance(a, V) else t.eq(a, b)


def B(v):
    """a boolean value as a condition"""
    return t.as_bdd(v.t if isinstance(v, V) else v)


def sub(a, b):
    return t.sub(n_(a), n_(b))


def user(r, name="U"):
    ty = r.caller._ty
    return V(r.P, sym(name, ty), ty)


OPAQUE = models.HASHMAPS + ("std::vec::Vec", "alloc::vec::Vec", "std::string::String", "alloc::string::String")


def generic(P, ty, name):
    """a generic value of a type, struct types expanded into their fields"""
    ti = P.byname.get(ty)
    td = P.types[ti] if ti is not None else {}
    if ty not in t.BIG and td.get("k") == "struct" and td["v"][0]["f"] and td.get("adt") not in OPAQUE and (len(td["v"][0]["f"]) > 1 or P.tyname[td["v"][0]["f"][0][1]] in t.BIG or P.tyname[td["v"][0]["f"][0][1]] in t.INT_TYPES):
        fs = [generic(P, P.tyname[ft], name + "_" + fn.upper()).t for fn, ft in td["v"][0]["f"]] if len(td["v"][0]["f"]) > 1 else [sym(name, P.tyname[td["v"][0]["f"][0][1]])]
        return V(P, agg(ty, 0, fs, ty), ty)
    return V(P, sym(name, ty), ty)


def gkey(m, name="K"):
    """a generic key of a map"""
    P, kt = m._P, m.keyty()
    td = P.types[P.byname[kt]]
    if td.get("k") == "tuple":
        parts = [generic(P, P.tyname[a], "%s%d" % (name, i)) for i, a in enumerate(td["a"])]
        return V(P, agg(kt, 0, [p.t for p in parts], kt), kt)
    return generic(P, kt, name)


def themap(v):
    """the single map inside a collection newtype"""
    P = v._P
    while True:
        td = P.types[P.byname[v._ty]]
        if td.get("k") == "struct" and len(td["v"][0]["f"]) == 1 and not td["name"].endswith("HashMap") and td.get("adt", "").split("::")[0] == "contracts":
            v = v.fld(td["v"][0]["f"][0][0])
            continue
        return v


def pools(S):
    return themap(S.pools)


def ticks(S):
    return themap(S.ticks)


def bitmap(S):
    return themap(S.tickmap)


def poslen(S):
    return S.positions.positions_length


def posmap(S):
    return S.positions.positions


def plen(S, u):
    m = poslen(S)
    return ite(m.has(u), m.at(u).n, iconst(0))


def pool(S, k):
    return pools(S).at(k)


def tick(S, k, i):
    m = ticks(S)
    return m.at(m.key(k, i))


def has_tick(S, k, i):
    m = ticks(S)
    return m.has(m.key(k, i))


def position(S, u, i):
    m = posmap(S)
    return m.at(m.key(u, i))


def has_position(S, u, i):
    m = posmap(S)
    return m.has(m.key(u, i))


def whole(r):
    return r.f["key"]


def phis(x, seen=None):
    """loops whose state values occur in x"""
    out, st, seen = set(), [x], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, t.T) or y in seen:
            continue
        seen.add(y)
        if y.op == "phi":
            out.add(y.args[0])
            continue
        st.extend(y.args)
    return out


def same_any(x, a, cands, pc, depth=12):
    """under pc, a equals one of the candidates (which are known to be equal to each other)"""
    a = x.R(a, band(x.pc, pc))
    for c in cands:
        if x.same(a, c, pc):
            return True
    if a.op == "ite" and depth > 0:
        c = a.args[0]
        return same_any(x, a.args[1], cands, band(pc, c), depth - 1) and same_any(x, a.args[2], cands, band(pc, bnot(c)), depth - 1)
    return False


def frame(ctx, key, r, obs, cond=TRUE, what="", only=None, skip=()):
    """obs(state) is the same at every commit point as at the start of its segment (loops by induction)"""
    loops = r.state_loops()

    def chk(k, x, S0):
        try:
            a = obs(x.S1)
            heads = []
            ph = phis(x.S1opt)
            for lid, e, h, b in loops:
                if lid in ph:
                    heads.append(obs(h.S1))
            ok = same_any(x, a, [obs(S0)] + heads, cond)
            d = "" if ok else "%s: %s" % (what or "value changes", x.explain())
        except AnalysisError as e:
            ok, d = False, "analysis could not decide: %s" % e
        ctx.ob(k, ok, d, whole(r))
    for i, (lid, e, h, b) in enumerate(loops):
        if obs(e.S1) is obs(h.S1) and obs(b.S1) is obs(h.S1):
            continue
        chk("%s: loop %d entry" % (key, i), e, e.S0)
        chk("%s: loop %d iteration" % (key, i), b, b.S0)
    for cn, x in r.commits():
        if only is not None and cn not in only or cn in skip:
            continue
        chk("%s@%s" % (key, cn), x, x.S0)


def inner(v, n=None):
    """the only field of a single-field wrapper"""
    td = v._P.types[v._P.byname[v._ty]]
    return v.fld(n or td["v"][0]["f"][0][0])


def listed(S, tier):
    """is a fee tier registered"""
    from eng import models
    return models.contains(None, inner(S.fee_tiers).t, tier.t if isinstance(tier, V) else tier)


def is_caller(r, who):
    return r.caller.eq(who)


def now(r):
    return env(r, "exec::block_timestamp", "u64")


def env(r, name, ty):
    return V(r.P, mk("sym", ("env::" + name,), ty), ty)


# ------------------------------------------------------------------ single bits of a word
bitat = t.bitat


MAX_TICK = 221818


def tick_pos(i, s):
    """chunk and bit of an aligned tick in the bitmap of a pool"""
    ix = t.tdiv(t.add(n_(i), iconst(MAX_TICK)), n_(s))
    return t.tdiv(ix, iconst(64)), t.trem(ix, iconst(64))


def initialized(S, K, C, N):
    """is the tick at chunk C, bit N marked in the pool's bitmap"""
    m = bitmap(S)
    k = m.key(C, K)
    return ite(m.has(k), ite(bitat(m.at(k).n, n_(N)), iconst(1), iconst(0)), iconst(0))
