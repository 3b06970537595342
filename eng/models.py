"""Semantics of the library functions the analysed crates call (integers, maps, vectors, iterators,
the Gear message API).  Anything not modelled and without MIR is an uninterpreted pure function of its
arguments that havocs whatever it receives a mutable reference to; such calls are counted and named."""
from . import terms as t
from .terms import (TRUE, FALSE, band, bor, bnot, mk, iconst, ite, simp, proj, agg, is_variant, boolt,
                    as_bdd, INT_TYPES, BIG, STRUCT_FIELDS, ENUM_VARIANTS)


def some(I, dty, v):
    tn = I.prog.tyname[dty]
    return agg(tn, 1, [v], tn)


def none(I, dty):
    tn = I.prog.tyname[dty]
    return agg(tn, 0, [], tn)


def ok(I, dty, v):
    tn = I.prog.tyname[dty]
    return agg(tn, 0, [v], tn)


def err(I, dty, v):
    tn = I.prog.tyname[dty]
    return agg(tn, 1, [v], tn)


def tyarg(I, dty, i=0):
    td = I.prog.types[dty]
    a = td.get("a") or []
    return a[i] if i < len(a) else None


def tn(I, i):
    return I.prog.tyname[i] if i is not None else None


def deref(I, st, v, td=None):
    """value behind a reference value (through any number of references if td says so)"""
    v = simp(v, st.pc)
    return simp(I.load_paths(st, I.ref_paths(v, st.pc, td)), st.pc)


def deref_all(I, st, v, ty):
    td = I.prog.types[ty]
    while td.get("k") == "ref":
        v = deref(I, st, v, I.prog.tyname[td["to"]])
        td = I.prog.types[td["to"]]
    return v, td


def refto(I, path, ty=None):
    return mk("ref", (path,), ty)


def extend(I, st, v, p, pointee=None):
    """reference to a sub-location of what v refers to"""
    ps = I.ref_paths(simp(v, st.pc), st.pc, pointee)
    out = None
    for c, path in reversed(ps):
        x = mk("ref", (path + (p,),))
        out = x if out is None else ite(c, x, out)
    return out


def intty(name):
    if name in INT_TYPES:
        return INT_TYPES[name]
    return BIG.get(name)


def diverge(I, st, why, bad, caller, span):
    """record that the program panics under `bad`, and continue without it"""
    b = band(st.pc, bad)
    if b != FALSE:
        s = st.copy(b)
        I.event("panic", why, [], s, caller, span)
    return st.copy(band(st.pc, bnot(bad)))


def unit():
    return agg("()", 0, [], "()")


# --------------------------------------------------------------------------------------------
def dispatch(I, fi, decl, callee, args, argtys, dty, st, span, caller):
    P = I.prog
    item = fi["item"] if fi else decl.split("::")[-1]
    selfid = fi.get("self") if fi else None
    if selfid is None and fi is not None and fi.get("kind") != "item" and fi.get("args"):
        selfid = fi["args"][0] if isinstance(fi["args"][0], int) else None
    sname = P.tyname[selfid] if selfid is not None else None
    std = P.types[selfid] if selfid is not None else {}
    adt = std.get("adt", "")
    trait = (fi.get("trait") if fi else None) or ("::".join(decl.split("::")[:-1]))
    crate = (fi["key"] if fi else decl).split("::")[0]
    key = fi["key"] if fi else decl
    argn = [P.tyname[x] for x in argtys]
    rn = P.tyname[dty]
    C = dict(I=I, fi=fi, item=item, sname=sname, std=std, adt=adt, trait=trait, crate=crate, key=key,
             args=args, argtys=argtys, argn=argn, rn=rn, dty=dty, st=st, span=span, caller=caller, decl=decl)
    for m in MODELS:
        r = m(**C)
        if r is not NotImplemented:
            return r
    return NotImplemented


# ---------------------------------------------------------------- clone / eq / ord / default
def m_basic(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    derived = bool(fi and fi.get("derived")) or crate not in LOCALS
    if decl == "core::clone::Clone::clone" or (trait == "core::clone::Clone" and item == "clone"):
        if derived:
            return st, deref(I, st, args[0], rn)
    if decl in ("alloc::borrow::ToOwned::to_owned",):
        return st, deref(I, st, args[0], rn)
    if trait == "core::cmp::PartialEq" or decl in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
        if derived or item == "ne":
            a, ta = deref_all(I, st, args[0], argtys[0])
            b, tb = deref_all(I, st, args[1], argtys[1])
            an, bn = ta["name"], tb["name"]
            if an == bn and (derived):
                e = eqv(I, a, b, ta)
                return st, boolt(e if item == "eq" else bnot(e))
            if derived and intty(an) and intty(bn):
                e = t.eq0(t.sub(a, b))
                return st, boolt(e if item == "eq" else bnot(e))
    if trait in ("core::cmp::PartialOrd", "core::cmp::Ord") and args:
        if item in ("lt", "le", "gt", "ge", "partial_cmp", "cmp") and len(args) == 2:
            a, ta = deref_all(I, st, args[0], argtys[0])
            b, tb = deref_all(I, st, args[1], argtys[1])
            while ta.get("k") == "struct" and ta["name"] in STRUCT_FIELDS and len(STRUCT_FIELDS[ta["name"]]) == 1 and ta["name"] == tb["name"] and not intty(ta["name"]):
                f0 = ta["v"][0]["f"][0][1]
                a, b = proj(a, 0, 0, P.tyname[f0]), proj(b, 0, 0, P.tyname[f0])
                ta = tb = P.types[f0]
            an = ta["name"]
            if intty(an) and intty(tb["name"]):
                L = t.lt(a, b)
                if item in ("lt", "le", "gt", "ge"):
                    return st, boolt(L if item == "lt" else t.le(a, b) if item == "le" else t.lt(b, a) if item == "gt" else bnot(L))
                E = t.eq0(t.sub(a, b))
            elif an == tb["name"] and (ta.get("k") != "enum"):
                if "text" in (plain(a).op, plain(b).op) or "alloc::string::String" in (ta.get("adt"), tb.get("adt")):
                    E = t.as_bdd(streq(a, b))
                    L = t.as_bdd(I.fresh("order", "bool")) if "text" in (plain(a).op, plain(b).op) else FALSE if a is b else olt(a, b)
                    L = band(L, bnot(E))
                elif a is b:
                    L, E = FALSE, TRUE
                else:
                    L, E = olt(a, b), t.eq(a, b)
                    L = band(L, bnot(E))
            else:
                return NotImplemented
            if item == "lt":
                return st, boolt(L)
            if item == "le":
                return st, boolt(bor(L, E))
            if item == "gt":
                return st, boolt(bnot(bor(L, E)))
            if item == "ge":
                return st, boolt(bnot(L))
            o = I.ordering(L, E)
            return st, (o if item == "cmp" else some(I, dty, o))
        if item in ("max", "min") and len(args) == 2:
            w = unwrap1(I, argtys[0])
            if w:
                a, b = w[0](args[0]), w[0](args[1])
                c = t.le(a, b)
                return st, ite(c, args[1], args[0]) if item == "max" else ite(c, args[0], args[1])
    if decl in ("core::cmp::max", "core::cmp::min") or key in ("core::cmp::max", "core::cmp::min"):
        w = unwrap1(I, argtys[0])
        if w:
            a, b = w[0](args[0]), w[0](args[1])
            c = t.le(a, b)
            return st, ite(c, args[1], args[0]) if item == "max" else ite(c, args[0], args[1])
    if decl == "core::default::Default::default":
        it = intty(rn)
        if it:
            return st, iconst(0)
        a = P.types[dty].get("adt", "")
        if a.startswith("hashbrown::map::HashMap"):
            return st, mk("mempty", (rn,), rn)
        if a == "alloc::vec::Vec":
            return st, mk("vnil", (rn,), rn)
        if crate not in LOCALS and not (fi and "blocks" in fi):
            return st, mk("fn", ("default:" + rn,), rn)
    return NotImplemented


LOCALS = {"decimal", "math", "traceable_result", "contracts", "io", "invariant", "invariant_vara_wasm", "extended_vft_app"}


def olt(a, b):
    x, y = a, b
    if a.id > b.id:
        x, y = b, a
        # !(y<x) and not equal  <=> x < y; kept as one atom for both orders
        return band(bnot(t.bvar(mk("olt", (x, y)))), bnot(t.eq(a, b)))
    return t.bvar(mk("olt", (x, y)))


def eqv(I, a, b, td):
    """structural equality guided by the type"""
    P = I.prog
    k = td.get("k")
    n = td["name"]
    if intty(n):
        return t.eq0(t.sub(a, b))
    if k == "enum" and a.op not in ("agg",) and b.op not in ("agg",) and a is not b:
        if all(not v["f"] for v in td["v"]):
            return I.eqdisc(I.disc(a, td), I.disc(b, td))
    if k in ("struct",) and n in STRUCT_FIELDS:
        r = TRUE
        for i, (_, ft) in enumerate(td["v"][0]["f"]):
            fn_ = P.tyname[ft]
            r = band(r, eqv(I, proj(a, 0, i, fn_), proj(b, 0, i, fn_), P.types[ft]))
        return r
    if k == "tuple":
        r = TRUE
        for i, ft in enumerate(td["a"]):
            fn_ = P.tyname[ft]
            r = band(r, eqv(I, proj(a, 0, i, fn_), proj(b, 0, i, fn_), P.types[ft]))
        return r
    return t.eq(a, b)


def unwrap1(I, ty):
    """projection of a newtype chain down to its integer"""
    P = I.prog
    td = P.types[ty]
    chain = []
    while not intty(td["name"]):
        if td.get("k") == "struct" and td["name"] in STRUCT_FIELDS and len(STRUCT_FIELDS[td["name"]]) == 1:
            f0 = td["v"][0]["f"][0][1]
            chain.append(P.tyname[f0])
            td = P.types[f0]
        else:
            return None

    def go(v):
        for n in chain:
            v = proj(v, 0, 0, n)
        return v

    return (go, td["name"])


# ---------------------------------------------------------------- integers
def m_int(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    # conversions between integer types
    if trait in ("core::convert::From", "core::convert::Into") and item in ("from", "into") and len(args) == 1:
        si, di = intty(argn[0]), intty(rn)
        if di and (si or argn[0] == "bool") and not (crate in LOCALS and not is_big(rn) and not is_big(argn[0])):
            v = args[0]
            if argn[0] == "bool":
                return st, ite(as_bdd(v), iconst(1), iconst(0))
            lo, hi = t.rng(v)
            if lo < di.lo or hi > di.hi:
                # big-uint From panics when the value does not fit (negative, or too wide)
                bad = bor(bnot(t.ge0(t.sub(v, iconst(di.lo)))), t.ge0(t.sub(v, iconst(di.hi + 1))))
                st = diverge(I, st, "from-overflow", bad, caller, span)
            return st, v
    if trait in ("core::convert::TryFrom", "core::convert::TryInto") and item in ("try_from", "try_into") and len(args) == 1:
        td = P.types[dty]
        okt = tyarg(I, dty, 0)
        if okt is not None:
            si, di = intty(argn[0]), intty(P.tyname[okt])
            if si and di:
                v = args[0]
                bad = bor(bnot(t.ge0(t.sub(v, iconst(di.lo)))), t.ge0(t.sub(v, iconst(di.hi + 1))))
                e = mk("fn", ("TryFromIntError",), P.tyname[tyarg(I, dty, 1)])
                return st, ite(bad, err(I, dty, e), ok(I, dty, v))
    it = intty(sname) if sname else None
    if it is None and trait.startswith("core::ops::") and args:
        it = intty(argn[0])
    if it is None:
        return NotImplemented
    big = is_big(sname if sname and intty(sname) else argn[0])
    n = item

    def val(i):
        v = args[i]
        v, _ = deref_all(I, st, v, argtys[i])
        return v

    opsn = {"add": t.add, "sub": t.sub, "mul": t.mul}
    if trait.startswith("core::ops::arith") or trait.startswith("core::ops::bit") or trait.startswith("core::ops::"):
        if len(args) == 2 and n in ("add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr"):
            a, b = val(0), val(1)
            if not big:
                if fi and "blocks" in fi and crate == "core":
                    return NotImplemented  # plain BinaryOp in core
            if n in opsn:
                e = opsn[n](a, b)
                if big:
                    bad = bor(t.ge0(t.sub(e, iconst(it.hi + 1))), bnot(t.ge0(e)))
                    st = diverge(I, st, "uint-overflow:" + n, bad, caller, span)
                    return st, e
                return st, I.raw(st, caller, n, e, it)
            if n == "div":
                st = diverge(I, st, "div-by-zero", t.eq0(b), caller, span)
                return st, t.div(a, b)
            if n == "rem":
                st = diverge(I, st, "div-by-zero", t.eq0(b), caller, span)
                return st, t.mod(a, b)
            if n in ("bitand", "bitor", "bitxor"):
                return st, t.bitop(n[3:], a, b)
            if n == "shl":
                if b.op == "int":
                    return st, t.wrap(it, t.mul(a, iconst(1 << b.args[0])))
                return st, mk("fn", ("shl", a, b), rn)
            if n == "shr":
                if b.op == "int":
                    return st, t.div(a, iconst(1 << b.args[0]))
                return st, mk("fn", ("shr", a, b), rn)
        if n.endswith("_assign") and len(args) == 2 and big:
            a = deref(I, st, args[0])
            b = val(1)
            o = n[:-7]
            if o in opsn:
                e = opsn[o](a, b)
                bad = bor(t.ge0(t.sub(e, iconst(it.hi + 1))), bnot(t.ge0(e)))
                st = diverge(I, st, "uint-overflow:" + o, bad, caller, span)
            elif o == "div":
                st = diverge(I, st, "div-by-zero", t.eq0(b), caller, span)
                e = t.div(a, b)
            elif o == "rem":
                st = diverge(I, st, "div-by-zero", t.eq0(b), caller, span)
                e = t.mod(a, b)
            elif o == "shl" and b.op == "int":
                e = t.wrap(it, t.mul(a, iconst(1 << b.args[0])))
            elif o == "shr" and b.op == "int":
                e = t.div(a, iconst(1 << b.args[0]))
            elif o in ("bitand", "bitor", "bitxor"):
                e = t.bitop(o[3:], a, b)
            else:
                e = mk("fn", (n, a, b), sname)
            st = st.copy()
            I.store(st, I.ref_paths(args[0], st.pc), e)
            return st, unit()
        return NotImplemented
    # inherent methods
    if n.startswith("checked_") and len(args) == 2:
        o = n[8:]
        a, b = val(0), val(1)
        if o in opsn:
            e = opsn[o](a, b)
            bad = bor(t.ge0(t.sub(e, iconst(it.hi + 1))), bnot(t.ge0(t.sub(e, iconst(it.lo)))))
            return st, ite(bad, none(I, dty), some(I, dty, e))
        if o in ("div", "rem"):
            bad = t.eq0(b)
            if it.signed:
                bad = bor(bad, band(t.eq0(t.sub(a, iconst(it.lo))), t.eq0(t.add(b, iconst(1)))))
                v = t.tdiv(a, b) if o == "div" else t.trem(a, b)
            else:
                v = t.div(a, b) if o == "div" else t.mod(a, b)
            return st, ite(bad, none(I, dty), some(I, dty, v))
        if o == "pow":
            e = power(a, b)
            if e.op == "int":
                return st, (some(I, dty, e) if it.lo <= e.args[0] <= it.hi else none(I, dty))
            bad = t.ge0(t.sub(e, iconst(it.hi + 1)))
            return st, ite(bad, none(I, dty), some(I, dty, e))
        if o in ("shl", "shr"):
            bad = t.ge0(t.sub(b, iconst(it.bits)))
            if b.op == "int" and b.args[0] < it.bits:
                v = t.wrap(it, t.mul(a, iconst(1 << b.args[0]))) if o == "shl" else t.div(a, iconst(1 << b.args[0]))
            else:
                v = mk("fn", (o, a, b), sname)
            return st, ite(bad, none(I, dty), some(I, dty, v))
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul") and len(args) == 2:
        return st, modulo(it, opsn[n[9:]](val(0), val(1)))
    if n in ("overflowing_add", "overflowing_sub", "overflowing_mul") and len(args) == 2:
        e = opsn[n[12:]](val(0), val(1))
        bad = bor(t.ge0(t.sub(e, iconst(it.hi + 1))), bnot(t.ge0(t.sub(e, iconst(it.lo)))))
        return st, agg(rn, 0, [modulo(it, e), boolt(bad)], rn)
    if n in ("saturating_add", "saturating_sub", "saturating_mul") and len(args) == 2:
        e = opsn[n[11:]](val(0), val(1))
        hi = t.ge0(t.sub(e, iconst(it.hi + 1)))
        lo = bnot(t.ge0(t.sub(e, iconst(it.lo))))
        return st, ite(hi, iconst(it.hi), ite(lo, iconst(it.lo), e))
    if n == "pow" and len(args) == 2:
        e = power(val(0), val(1))
        if big:
            bad = t.ge0(t.sub(e, iconst(it.hi + 1)))
            st = diverge(I, st, "uint-overflow:pow", bad, caller, span)
            return st, e
        return st, I.raw(st, caller, "pow", e, it)
    if n == "abs" and len(args) == 1:
        a = val(0)
        return st, ite(t.ge0(a), a, t.neg(a))
    if n == "unsigned_abs" and len(args) == 1:
        a = val(0)
        return st, ite(t.ge0(a), a, t.neg(a))
    if n == "abs_diff" and len(args) == 2:
        a, b = val(0), val(1)
        return st, ite(t.le(b, a), t.sub(a, b), t.sub(b, a))
    if n in ("is_zero",) and len(args) == 1:
        return st, boolt(t.eq0(val(0)))
    if n in ("max_value", "MAX") and not args:
        return st, iconst(it.hi)
    if n in ("min_value", "zero") and not args:
        return st, iconst(it.lo if n == "min_value" else 0)
    if n == "one" and not args:
        return st, iconst(1)
    if n in ("as_u128", "as_u64", "as_u32", "as_usize") and len(args) == 1:
        a = val(0)
        w = INT_TYPES[n[3:]]
        bad = t.ge0(t.sub(a, iconst(w.hi + 1)))
        st = diverge(I, st, n + "-overflow", bad, caller, span)
        return st, a
    if n in ("low_u128", "low_u64", "low_u32") and len(args) == 1:
        a = val(0)
        w = INT_TYPES[n[4:]]
        lo, hi = t.rng(a)
        if hi > w.hi:
            I.event("cast", "%s.%s" % (sname, n), [a], st, caller, span)
        return st, t.mod(a, iconst(w.hi + 1))
    if n in ("leading_zeros", "trailing_zeros", "bits", "count_ones", "ilog2", "isqrt", "integer_sqrt") and len(args) == 1:
        return st, mk("fn", (n + ":" + (sname or ""), val(0)), rn)
    if n == "clone" and len(args) == 1:
        return st, val(0)
    if n in ("min", "max") and len(args) == 2:
        a, b = val(0), val(1)
        c = t.le(a, b)
        return st, ite(c, b, a) if n == "max" else ite(c, a, b)
    if n == "clamp" and len(args) == 3:
        a, lo, hi = val(0), val(1), val(2)
        return st, ite(t.lt(a, lo), lo, ite(t.lt(hi, a), hi, a))
    if n == "div_mod" and len(args) == 2:
        a, b = val(0), val(1)
        st = diverge(I, st, "div-by-zero", t.eq0(b), caller, span)
        return st, agg(rn, 0, [t.div(a, b), t.mod(a, b)], rn)
    if n == "from_dec_str":
        return NotImplemented
    if big and fi is not None and n in ("uint_cast", "uint_checked_cast"):
        return NotImplemented
    return NotImplemented


def power(a, b):
    if b.op == "int" and b.args[0] <= 64:
        r = iconst(1)
        for _ in range(b.args[0]):
            r = t.mul(r, a)
        return r
    if b.op == "ite":
        return ite(b.args[0], power(a, b.args[1]), power(a, b.args[2]))
    return mk("pow", (a, b), None)


def is_big(n):
    return n in BIG


# ---------------------------------------------------------------- mem / option helpers / intrinsics
def m_mem(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    if key in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
        st = st.copy()
        ps = I.ref_paths(simp(args[0], st.pc), st.pc, tn(I, I.prog.types[argtys[0]].get("to")))
        old = I.load_paths(st, ps)
        if item == "swap":
            qs = I.ref_paths(simp(args[1], st.pc), st.pc)
            b = I.load_paths(st, qs)
            I.store(st, ps, b)
            I.store(st, qs, old)
            return st, unit()
        if item == "replace":
            I.store(st, ps, args[1])
            return st, old
        if item == "take":
            if rn.startswith(("core::option::Option", "sails_rs::Option", "std::option::Option")):
                I.store(st, ps, none(I, dty))
                return st, old
            if intty(rn):
                I.store(st, ps, iconst(0))
                return st, old
            # T::default()
            d = None
            for f in I.prog.fns:
                if f.get("trait") == "core::default::Default" and f.get("self") == dty and "blocks" in f:
                    d = f
            if d is not None:
                st2, dv = I.run(d, [], st)
                if st2 is None:
                    return st2, None
                I.store(st2, ps, dv)
                return st2, old
            I.store(st, ps, mk("fn", ("default:" + rn,), rn))
            return st, old
    if key.startswith("core::intrinsics::") or (fi and fi.get("nobody") == "intrinsic"):
        if item in ("cold_path", "assume"):
            return st, unit()
        if item in ("likely", "unlikely", "black_box"):
            return st, args[0]
        if item in ("abort", "unreachable"):
            return None, None
        if item == "discriminant_value":
            v, td = deref_all(I, st, args[0], argtys[0])
            return st, I.disc(v, td)
        if item in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            it = intty(rn)
            return st, modulo(it, {"a": t.add, "s": t.sub, "m": t.mul}[item[9]](args[0], args[1]))
        if item in ("unchecked_add", "unchecked_sub", "unchecked_mul"):
            it = intty(rn)
            e = {"a": t.add, "s": t.sub, "m": t.mul}[item[10]](args[0], args[1])
            return st, t.wrap(it, e)
        if item in ("unchecked_div", "exact_div"):
            return st, t.tdiv(args[0], args[1])
        if item == "read_via_copy":
            return st, deref(I, st, args[0])
        if item == "write_via_move":
            st = st.copy()
            I.store(st, I.ref_paths(args[0], st.pc), args[1])
            return st, unit()
        if item == "transmute":
            return st, args[0] if rn == argn[0] else mk("fn", ("transmute:" + rn, args[0]), rn)
    if key in ("core::mem::drop", "core::mem::forget"):
        return st, unit()
    if key == "core::hint::must_use":
        return st, args[0]
    if trait in ("core::convert::AsRef", "core::borrow::Borrow", "core::ops::deref::Deref", "core::ops::deref::DerefMut",
                 "core::convert::AsMut", "core::borrow::BorrowMut") and len(args) == 1 and crate not in LOCALS:
        a = I.prog.types[argtys[0]]
        inner = I.prog.types[a["to"]] if a.get("k") == "ref" else {}
        # Vec/String/Box/&T deref: a view of the same location
        if inner.get("adt") in ("alloc::vec::Vec", "alloc::string::String"):
            return st, args[0]
        if inner.get("adt") == "alloc::boxed::Box":
            return st, deref(I, st, args[0])
        if inner.get("k") == "ref":
            return st, deref(I, st, args[0])
    if decl == "core::convert::Into::into" or decl == "core::convert::From::from":
        if argn[0] == rn:
            return st, args[0]
    return NotImplemented


# ---------------------------------------------------------------- HashMap
HASHMAPS = ("hashbrown::map::HashMap", "std::collections::hash::map::HashMap")


def m_map(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    if crate != "hashbrown" and not adt.startswith(("hashbrown::map", "std::collections::hash::map")):
        return NotImplemented
    P = I.prog
    if adt in HASHMAPS or (args and P.types[argtys[0]].get("adt", "") in HASHMAPS) or \
            (args and P.types[argtys[0]].get("k") == "ref" and P.types[P.types[argtys[0]]["to"]].get("adt") in HASHMAPS):
        mty = argtys[0] if args else dty
        if args and P.types[mty].get("k") == "ref":
            mty = P.types[mty]["to"]
        ta = P.types[mty].get("a", [])
        vty = P.tyname[ta[1]] if len(ta) > 1 else None
        kty = ta[0] if ta else None
        if item in ("new", "with_capacity", "default") and len(args) <= 1 and "HashMap" in rn:
            return st, mk("mempty", (rn,), rn)
        if item in ("get", "get_mut", "contains_key", "remove", "remove_entry", "get_key_value"):
            m = deref(I, st, args[0], P.tyname[mty])
            k, _ = deref_all(I, st, args[1], argtys[1])
            has = t.mhas(m, k)
            if item == "contains_key":
                return st, boolt(has)
            if item in ("get", "get_mut"):
                r = extend(I, st, args[0], ("k", k, vty), P.tyname[mty])
                return st, ite(has, some(I, dty, r), none(I, dty))
            if item == "remove":
                v = t.msel(m, k, vty)
                st = st.copy()
                I.event("map", "remove", [args[0], k, v], st, caller, span)
                I.store(st, I.ref_paths(args[0], st.pc, P.tyname[mty]), t.mdel(m, k))
                return st, ite(has, some(I, dty, v), none(I, dty))
            if item in ("remove_entry", "get_key_value"):
                return NotImplemented
        if item == "index" and len(args) == 2:
            m = deref(I, st, args[0], P.tyname[mty])
            k, _ = deref_all(I, st, args[1], argtys[1])
            st = diverge(I, st, "index", bnot(t.mhas(m, k)), caller, span)
            return st, extend(I, st, args[0], ("k", k, vty), P.tyname[mty])
        if item in ("insert", "insert_unique_unchecked") and len(args) == 3:
            m = deref(I, st, args[0], P.tyname[mty])
            k, v = args[1], args[2]
            has = t.mhas(m, k)
            old = t.msel(m, k, vty)
            st = st.copy()
            I.event("map", "insert", [args[0], k, v, boolt(has)], st, caller, span)
            I.store(st, I.ref_paths(args[0], st.pc, P.tyname[mty]), t.mset(m, k, v))
            if item == "insert":
                return st, ite(has, some(I, dty, old), none(I, dty))
            return st, unit()
        if item == "entry":
            m = deref(I, st, args[0], P.tyname[mty])
            e = agg("Entry", 0, [args[0], args[1]], None)
            return st, ite(t.mhas(m, args[1]), agg(rn, 0, [e], rn), agg(rn, 1, [e], rn))
        if item == "len":
            m = deref(I, st, args[0], P.tyname[mty])
            return st, mk("len", (m,), "usize")
        if item == "is_empty":
            m = deref(I, st, args[0], P.tyname[mty])
            return st, boolt(t.eq0(mk("len", (m,), "usize")))
        if item in ("iter", "keys", "values", "into_iter"):
            m = deref(I, st, args[0], P.tyname[mty]) if argn[0].startswith("&") else args[0]
            return st, agg("MapIter", 0, [m, mk("str", (item,)), iconst(0)], rn)
        if item == "clear":
            st = st.copy()
            I.event("map", "clear", [args[0]], st, caller, span)
            I.store(st, I.ref_paths(args[0], st.pc), mk("mempty", (P.tyname[mty],), P.tyname[mty]))
            return st, unit()
        if item == "retain":
            st = st.copy()
            I.event("map", "retain", [args[0]], st, caller, span)
            m = deref(I, st, args[0], P.tyname[mty])
            I.store(st, I.ref_paths(args[0], st.pc), I.fresh("retain", P.tyname[mty]))
            return st, unit()
    # Entry / OccupiedEntry API
    ent = args[0] if args else None
    if ent is not None and ent.op == "ref":
        ent = deref(I, st, ent)
    while ent is not None and (ent.op == "ite" or (ent.op == "agg" and ent.args[0] != "Entry" and len(ent.args) == 3)):
        ent = ent.args[1] if ent.op == "ite" else ent.args[2]
    if ent is not None and ent.op == "agg" and ent.args[0] == "Entry":
        mref, k = ent.args[2], ent.args[3]
        m = deref(I, st, mref)
        # value type from the returned reference
        vty = None
        td = P.types[dty]
        if td.get("k") == "ref":
            vty = P.tyname[td["to"]]
        has = t.mhas(m, k)
        if "OccupiedEntry" in adt or "VacantEntry" in adt:
            if item in ("get", "get_mut", "into_mut") and vty:
                return st, extend(I, st, mref, ("k", k, vty))
            if item == "insert":
                st = st.copy()
                I.event("map", "insert", [mref, k, args[1], boolt(has)], st, caller, span)
                I.store(st, I.ref_paths(mref, st.pc), t.mset(m, k, args[1]))
                if "Vacant" in adt and vty:
                    return st, extend(I, st, mref, ("k", k, vty))
                return st, t.msel(m, k, rn)
            if item == "remove":
                v = t.msel(m, k, rn)
                st = st.copy()
                I.event("map", "remove", [mref, k, v], st, caller, span)
                I.store(st, I.ref_paths(mref, st.pc), t.mdel(m, k))
                return st, v
            return NotImplemented
        if item in ("or_insert", "or_insert_with", "or_default"):
            st = st.copy()
            if item == "or_insert":
                dv = args[1]
            elif item == "or_default":
                a = P.types[td["to"]].get("adt", "")
                if intty(vty):
                    dv = iconst(0)
                elif a.startswith("hashbrown::map::HashMap"):
                    dv = mk("mempty", (vty,), vty)
                elif a == "alloc::vec::Vec":
                    dv = mk("vnil", (vty,), vty)
                else:
                    dv = None
                    for f in P.fns:
                        if f.get("trait") == "core::default::Default" and f.get("self") == td["to"] and "blocks" in f:
                            st2, dv = I.run(f, [], st)
                            break
                    if dv is None:
                        dv = mk("fn", ("default:" + str(vty),), vty)
            else:
                r = I.call_closure(args[1], argtys[1], [], td["to"], st, span, caller)
                if r is None:
                    return NotImplemented
                st2, dv = r
                if st2 is None:
                    # the closure always diverges: only the occupied case continues
                    st = diverge(I, st, "entry", bnot(has), caller, span)
                    return st, extend(I, st, mref, ("k", k, vty))
                st = st2.copy()
            if has != TRUE:
                I.event("map", "insert", [mref, k, dv, boolt(has)], st, caller, span)
                cur = t.msel(m, k, vty)
                I.store(st, I.ref_paths(mref, st.pc), t.mset(m, k, ite(has, cur, dv)))
            return st, extend(I, st, mref, ("k", k, vty))
        if item == "and_modify":
            st = st.copy()
            yes = st.copy(band(st.pc, has))
            no = st.copy(band(st.pc, bnot(has)))
            r = NotImplemented
            if yes.pc != FALSE:
                cell = extend(I, yes, mref, ("k", k, None))
                cr = I.call_closure(args[1], argtys[1], [cell], dty, yes, span, caller)
                if cr is None:
                    return NotImplemented
                yes = cr[0]
            out = I.join([s for s in (yes, no) if s is not None])
            return out, args[0]
    return NotImplemented


# ---------------------------------------------------------------- Vec, slices, iterators
def m_vec(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    if crate == "alloc" and item == "new_uninit" and "Box<" in rn.split("MaybeUninit<[")[0] and "MaybeUninit<[" in rn:
        # the box behind vec![..]: a cell of its own; what is written through it becomes the vector
        st = st.copy()
        root = ("T", I.stack[-1], I.curblk, I.substep, "box")
        I.store(st, [(TRUE, (root,))], mk("undef", ("box",)))
        return st, agg(rn, 0, [refto(I, (root,))], rn)
    if item == "box_assume_init_into_vec_unsafe" and crate == "alloc":
        b = args[0]
        if b.op == "agg" and len(b.args) == 3 and b.args[2].op == "ref":
            v = deref(I, st, b)
            while not (v.op == "agg" and str(v.args[0]).startswith("[")):
                kids = [x for x in v.args if isinstance(x, t.T) and x.op in ("agg", "upd")]
                if len(kids) != 1:
                    break
                v = kids[0]
            out = mk("vnil", (rn,), rn)
            if v.op == "agg" and str(v.args[0]).startswith("["):
                for x in v.args[2:]:
                    out = mk("vpush", (out, x), rn)
                return st, out
    if adt == "alloc::vec::Vec" or key.startswith("alloc::vec::"):
        if item in ("new", "with_capacity") and rn.split("<")[0].endswith("Vec"):
            return st, mk("vnil", (rn,), rn)
        if item == "push":
            st = st.copy()
            ps = I.ref_paths(args[0], st.pc, tn(I, P.types[argtys[0]]["to"]))
            v = I.load_paths(st, ps)
            I.event("vec", "push", [args[0], args[1]], st, caller, span)
            I.store(st, ps, mk("vpush", (v, args[1]), v.ty))
            return st, unit()
        if item in ("remove", "swap_remove"):
            st = st.copy()
            ps = I.ref_paths(args[0], st.pc, tn(I, P.types[argtys[0]]["to"]))
            v = I.load_paths(st, ps)
            st = diverge(I, st, "index", bnot(t.lt(args[1], I.vlen(v))), caller, span)
            I.event("vec", item, [args[0], args[1]], st, caller, span)
            el = I.vidx(v, args[1], rn)
            if item == "remove" and args[1].op == "position" and args[1].args[0] is v:
                # first occurrence of a value; lists searched by value hold no duplicates (their own obligation)
                I.store(st, ps, mk("vdel", (v, args[1].args[1]), v.ty))
            else:
                I.store(st, ps, mk("v" + item, (v, args[1]), v.ty))
            return st, el
        if item == "retain":
            st = st.copy()
            ps = I.ref_paths(args[0], st.pc, tn(I, P.types[argtys[0]]["to"]))
            v = I.load_paths(st, ps)
            y = closure_eq(I, args[1], argtys[1], v, st, span, caller, neg=True)
            I.event("vec", "retain", [args[0]], st, caller, span)
            I.store(st, ps, mk("vdel", (v, y), v.ty) if y is not None else I.fresh("retain", v.ty))
            return st, unit()
        if item in ("len",):
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            return st, I.vlen(v)
        if item == "is_empty":
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            return st, boolt(t.eq0(I.vlen(v)))
        if item in ("as_slice", "as_mut_slice", "as_ref"):
            return st, args[0]
        if item == "pop":
            return NotImplemented
        if item == "into_iter" and trait == "core::iter::traits::collect::IntoIterator":
            v = args[0]
            byref = argn[0].startswith("&")
            if byref:
                return st, agg("SliceIter", 0, [v, iconst(0)], rn)
            return st, agg("VecIter", 0, [v, iconst(0)], rn)
        if item == "from_iter":
            return iterator(I, fi, "collect", args, argtys, argn, rn, dty, st, span, caller, crate)
        if item in ("index", "index_mut") and len(args) == 2 and intty(argn[1]):
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            st = diverge(I, st, "index", bnot(t.lt(args[1], I.vlen(v))), caller, span)
            ety = tn(I, P.types[dty].get("to"))
            return st, extend(I, st, args[0], ("i", args[1], ety), tn(I, P.types[argtys[0]].get("to")))
    if key.startswith("core::slice::") or adt.startswith("core::slice::"):
        if item == "len" and args and not adt.startswith("core::slice::iter"):
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            return st, I.vlen(v)
        if item == "is_empty" and not adt.startswith("core::slice::iter"):
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            return st, boolt(t.eq0(I.vlen(v)))
        if item in ("iter", "iter_mut"):
            return st, agg("SliceIter", 0, [args[0], iconst(0)], rn)
        if item in ("first", "last", "get") and args and rn.startswith(("core::option::Option<&", "sails_rs::Option<&", "std::option::Option<&")):
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            n = I.vlen(v)
            opt = tyarg(I, dty)
            ety = tn(I, P.types[opt].get("to")) if opt is not None else None
            if item == "get":
                if not intty(argn[1]):
                    return NotImplemented
                i = args[1]
                c = t.lt(i, n)
            else:
                c = t.ge0(t.sub(n, iconst(1)))
                i = iconst(0) if item == "first" else t.sub(n, iconst(1))
            return st, ite(c, some(I, dty, extend(I, st, args[0], ("i", i, ety), tn(I, P.types[argtys[0]].get("to")))), none(I, dty))
        if item == "contains" and len(args) == 2:
            v = deref(I, st, args[0], tn(I, P.types[argtys[0]].get("to")))
            x = deref(I, st, args[1], tn(I, P.types[argtys[1]].get("to")))
            return st, boolt(contains(I, v, x))
        if item in ("index", "index_mut") and len(args) == 2 and intty(argn[1]):
            v = deref(I, st, args[0])
            st = diverge(I, st, "index", bnot(t.lt(args[1], I.vlen(v))), caller, span)
            ety = tn(I, P.types[dty].get("to"))
            return st, extend(I, st, args[0], ("i", args[1], ety))
    if trait == "core::iter::traits::collect::IntoIterator" and item == "into_iter":
        if is_iter(args[0]):
            return st, args[0]
        if argn[0] == rn:
            return st, args[0]
        td = P.types[argtys[0]]
        if td.get("k") == "ref" and (P.types[td["to"]].get("adt") == "alloc::vec::Vec" or P.types[td["to"]].get("k") in ("array", "slice")):
            return st, agg("SliceIter", 0, [args[0], iconst(0)], rn)
        if td.get("adt") == "alloc::vec::Vec" or td.get("k") == "array":
            return st, agg("VecIter", 0, [args[0], iconst(0)], rn)
    if decl.startswith("core::iter::traits::iterator::Iterator::") or trait == "core::iter::traits::iterator::Iterator":
        return iterator(I, fi, item, args, argtys, argn, rn, dty, st, span, caller, crate)
    if item in ("rev",) and args and args[0].op == "agg" and args[0].args[0] in ("SliceIter",):
        return st, mk("fn", ("rev", args[0]), rn)
    if (key.startswith(("alloc::vec::", "alloc::slice::", "core::slice::")) and fi is not None and not fi.get("trait") and args and argn[0].startswith("&mut ")
            and P.types[argtys[0]].get("k") == "ref" and not iterish(argn[0]) and "&" not in rn and not iterish(rn)):
        # an operation of a list that is not modelled (sort, reverse, insert, ...): its body works on raw memory;
        # the list it leaves behind is a function of what it was given
        return I.unknown_call(key, args, argtys, dty, st, span, caller, fi)
    return NotImplemented


def iterish(name):
    return "Iter" in name or "Drain" in name or "IntoIter" in name


def modulo(it, e):
    """a sum or difference reduced to the type's width, by the side on which it leaves the range"""
    lo, hi = t.rng(e)
    m = 1 << it.bits
    if e.op == "int" or lo is None or hi is None or lo < it.lo - m or hi > it.hi + m or (lo >= it.lo and hi <= it.hi):
        return t.wrap(it, e)
    r = ite(t.ge0(t.sub(e, iconst(it.lo))), e, t.add(e, iconst(m))) if lo < it.lo else e
    return ite(t.ge0(t.sub(e, iconst(it.hi + 1))), t.sub(e, iconst(m)), r) if hi > it.hi else r


def contains(I, v, x):
    if v.op == "vnil":
        return FALSE
    if v.op == "vpush":
        return bor(t.eq(v.args[1], x), contains(I, v.args[0], x))
    if v.op == "vdel":
        return band(bnot(t.eq(v.args[1], x)), contains(I, v.args[0], x))
    if v.op == "ite":
        return t.bite(v.args[0], contains(I, v.args[1], x), contains(I, v.args[2], x))
    if v.op == "agg":
        r = FALSE
        for y in v.args[2:]:
            r = bor(r, t.eq(y, x))
        return r
    return t.bvar(mk("contains", (v, x)))


ADAPTORS = ("map", "filter", "filter_map", "enumerate", "skip", "take", "rev", "step_by", "chain", "zip", "cloned",
            "copied", "take_while", "skip_while", "map_while", "inspect", "peekable", "fuse", "by_ref")
CONSUMERS = ("collect", "count", "sum", "fold", "any", "all", "find", "position", "last", "nth",
             "for_each", "try_for_each", "find_map")
ITERS = ("SliceIter", "VecIter", "RevSlice", "MapIter", "RevRange")


def is_iter(v):
    return v.op == "agg" and (v.args[0] in ITERS or str(v.args[0]).startswith("It:"))


def range_parts(I, it):
    """(start, end-exclusive) of a Range value"""
    n = it.ty if it.ty else (it.args[0] if it.op == "agg" else None)
    if n not in I.prog.byname:
        return None
    td = I.prog.types[I.prog.byname[n]]
    if td.get("adt") == "core::ops::range::Range":
        ity = intty(I.prog.tyname[td["v"][0]["f"][0][1]])
        if ity:
            return ("Range", td["name"], ity)
    if td.get("adt") == "core::ops::range::RangeInclusive":
        ity = intty(I.prog.tyname[td["v"][0]["f"][0][1]])
        if ity:
            return ("RangeInclusive", td["name"], ity)
    return None


class Step:
    """outcome of advancing an iterator: (yield state, element, next iterator), (skip state, iterator), done state"""
    __slots__ = ("y", "el", "ynext", "skip", "snext", "done")

    def __init__(self, y, el, ynext, skip, snext, done):
        self.y, self.el, self.ynext, self.skip, self.snext, self.done = y, el, ynext, skip, snext, done


def cut(st, c):
    pc = band(st.pc, c)
    return None if pc == FALSE else st.copy(pc)


def istep(I, st, it, elty, caller, span):
    """advance the iterator value `it` in state st; None if the iterator is not understood"""
    P = I.prog
    it = simp(it, st.pc)
    if it.op == "agg":
        k = it.args[0]
        if k in ("SliceIter", "VecIter"):
            seq, i = it.args[2], it.args[3]
            if k == "SliceIter":
                v = deref(I, st, seq)
                el = extend(I, st, seq, ("i", i, elty_of(I, elty)))
            else:
                v = seq
                el = I.vidx(v, i, tn(I, elty))
            c = t.lt(i, I.vlen(v))
            y = cut(st, c)
            return Step(y, el, agg(k, 0, [seq, t.add(i, iconst(1))], it.ty), None, None, cut(st, bnot(c)))
        if k == "RevSlice":
            src, j = it.args[2], it.args[3]
            byref = src.args[0] == "SliceIter"
            seq = src.args[2]
            idx = t.sub(j, iconst(1))
            el = extend(I, st, seq, ("i", idx, elty_of(I, elty))) if byref else I.vidx(seq, idx, tn(I, elty))
            c = t.ge0(idx)
            return Step(cut(st, c), el, agg(k, 0, [src, idx], it.ty), None, None, cut(st, bnot(c)))
        if k == "MapIter":
            m, kind, i = it.args[2], it.args[3].args[0], it.args[4]
            c = t.lt(i, mk("len", (m,), "usize"))
            td = P.types[elty] if elty is not None else {}
            ks, vs = mk("mapkey", (m, i)), None
            key_ty = val_ty = None
            if td.get("k") == "tuple":
                a = [P.types[x] for x in td["a"]]
                key_ty, val_ty = [P.tyname[x["to"]] if x.get("k") == "ref" else x["name"] for x in a]
                ks = mk("mapkey", (m, i), key_ty)
                vs = t.msel(m, ks, val_ty)
                byref = a[0].get("k") == "ref"
                w = (lambda z: mk("ref", ((("C", z),),))) if byref else (lambda z: z)
                el = agg(td["name"], 0, [w(ks), w(vs)], td["name"])
            elif kind in ("iter", "iter_mut", "into_iter", "drain") and td.get("k") not in ("ref",) and elty is None:
                w = (lambda z: mk("ref", ((("C", z),),))) if kind in ("iter", "iter_mut") else (lambda z: z)
                kv = [q for q in targs_of(it.ty) if not q.startswith("'")] + [None, None]
                ks = mk("mapkey", (m, i), kv[0])
                el = agg("tuple", 0, [w(ks), w(t.msel(m, ks, kv[1]))], None)
            else:
                byref = td.get("k") == "ref"
                nm = P.tyname[td["to"]] if byref else td.get("name")
                ks = mk("mapkey", (m, i), nm if kind == "keys" else None)
                z = ks if kind == "keys" else t.msel(m, ks, nm)
                el = mk("ref", ((("C", z),),)) if byref else z
            return Step(cut(st, c), el, agg(k, 0, [m, it.args[3], t.add(i, iconst(1))], it.ty), None, None, cut(st, bnot(c)))
        if k == "RevRange":
            lo, hi = it.args[2], it.args[3]
            c = t.lt(lo, hi)
            x = t.sub(hi, iconst(1))
            return Step(cut(st, c), x, agg(k, 0, [lo, x], it.ty), None, None, cut(st, bnot(c)))
        if isinstance(k, str) and k.startswith("It:"):
            return astep(I, st, it, k[3:], elty, caller, span)
    r = range_parts(I, it)
    if r:
        kind, name, ity = r
        s, e = proj(it, 0, 0, ity.name), proj(it, 0, 1, ity.name)
        if kind == "Range":
            c = t.lt(s, e)
            return Step(cut(st, c), s, agg(name, 0, [t.add(s, iconst(1)), e], name), None, None, cut(st, bnot(c)))
        ex = as_bdd(proj(it, 0, 2, "bool"))
        c = band(bnot(ex), t.le(s, e))
        more = t.lt(s, e)
        return Step(cut(st, c), s, agg(name, 0, [ite(more, t.add(s, iconst(1)), s), e, boolt(bor(ex, bnot(more)))], name), None, None, cut(st, bnot(c)))
    # opaque iterator: arbitrary elements
    nx = I.fresh("next", None)
    c = t.bvar(mk("more", (it, nx)))
    return Step(cut(st, c), mk("elem", (it, nx), tn(I, elty)), mk("iterstate", (it, nx), it.ty), None, None, cut(st, bnot(c)))


def targs_of(ty):
    """type arguments of a type's name"""
    if not ty or "<" not in ty:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[ty.index("<") + 1:ty.rindex(">")]:
        d += (ch in "<([") - (ch in ">)]")
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def elty_of(I, elty):
    if elty is None:
        return None
    td = I.prog.types[elty]
    return I.prog.tyname[td["to"]] if td.get("k") == "ref" else td["name"]


def astep(I, st, it, k, elty, caller, span):
    P = I.prog
    inner = it.args[2]
    extra = list(it.args[3:])
    ety = extra[-1].args[0]  # element type of the inner iterator
    ety = ety if ety >= 0 else None
    wrap = lambda x, more=None: agg(it.args[0], 0, [x] + (more if more is not None else extra), it.ty)
    if k in ("zip", "chain"):
        other, oty = extra[0], extra[1].args[0]
        oty = oty if oty >= 0 else None
        s1 = istep(I, st, inner, ety, caller, span)
        if s1.skip is not None:
            return opaque_step(I, st, it, elty)
        if k == "zip":
            if s1.y is None:
                return s1
            s2 = istep(I, s1.y, other, oty, caller, span)
            if s2.skip is not None:
                return opaque_step(I, st, it, elty)
            done = I.join([s for s in (s1.done, s2.done) if s is not None])
            el = agg(tn(I, elty) or "tuple", 0, [s1.el, s2.el], tn(I, elty))
            return Step(s2.y, el, wrap(s1.ynext, [s2.ynext] + extra[1:]), None, None, done)
        return opaque_step(I, st, it, elty)
    s = istep(I, st, inner, ety, caller, span)
    skip = None if s.skip is None else (s.skip, wrap(s.snext))
    if k in ("fuse", "peekable", "by_ref"):
        return Step(s.y, s.el, wrap(s.ynext) if s.ynext is not None else None, s.skip, wrap(s.snext) if s.snext is not None else None, s.done)
    if s.y is None:
        return Step(None, None, None, s.skip, wrap(s.snext) if s.snext is not None else None, s.done)
    nxt = wrap(s.ynext)
    sn = wrap(s.snext) if s.snext is not None else None
    if k == "enumerate":
        n = extra[0]
        el = agg(tn(I, elty) or "tuple", 0, [n, s.el], tn(I, elty))
        return Step(s.y, el, wrap(s.ynext, [t.add(n, iconst(1))] + extra[1:]), s.skip, sn, s.done)
    if k in ("cloned", "copied"):
        return Step(s.y, deref(I, s.y, s.el, tn(I, elty)), nxt, s.skip, sn, s.done)
    if k == "take":
        n = extra[0]
        c = t.ge0(t.sub(n, iconst(1)))
        y, d2 = cut(s.y, c), cut(s.y, bnot(c))
        done = I.join([x for x in (s.done, d2) if x is not None])
        return Step(y, s.el, wrap(s.ynext, [t.sub(n, iconst(1))] + extra[1:]), s.skip, sn, done)
    if k == "skip":
        n = extra[0]
        c = t.ge0(t.sub(n, iconst(1)))
        sk, y = cut(s.y, c), cut(s.y, bnot(c))
        if s.skip is not None:
            return opaque_step(I, st, it, elty)
        return Step(y, s.el, nxt, sk, wrap(s.ynext, [t.sub(n, iconst(1))] + extra[1:]), s.done)
    # closures
    cl, cty = extra[0], extra[1].args[0]
    if k == "map":
        r = I.call_closure(cl, cty, [s.el], elty, s.y, span, caller)
        if r is None:
            return opaque_step(I, st, it, elty)
        return Step(r[0], r[1], nxt, s.skip, sn, s.done)
    if k in ("filter", "take_while", "skip_while", "inspect"):
        cell = I.tmp(s.y, s.el)
        r = I.call_closure(cl, cty, [mk("ref", ((cell,),))], None, s.y, span, caller)
        if r is None:
            return opaque_step(I, st, it, elty)
        if r[0] is None:
            return Step(None, None, None, s.skip, sn, s.done)
        if k == "inspect":
            return Step(r[0], s.el, nxt, s.skip, sn, s.done)
        c = as_bdd(r[1])
        y, no = cut(r[0], c), cut(r[0], bnot(c))
        if k == "take_while":
            return Step(y, s.el, nxt, s.skip, sn, I.join([x for x in (s.done, no) if x is not None]))
        if k == "skip_while":
            return opaque_step(I, st, it, elty)
        if s.skip is not None:
            return opaque_step(I, st, it, elty)
        return Step(y, s.el, nxt, no, nxt, s.done)
    if k in ("filter_map", "map_while"):
        r = I.call_closure(cl, cty, [s.el], None, s.y, span, caller)
        if r is None or s.skip is not None:
            return opaque_step(I, st, it, elty)
        if r[0] is None:
            return Step(None, None, None, None, None, s.done)
        c = is_variant(r[1], 1, 2)
        y, no = cut(r[0], c), cut(r[0], bnot(c))
        v = proj(r[1], 1, 0, tn(I, elty))
        if k == "map_while":
            return Step(y, v, nxt, None, None, I.join([x for x in (s.done, no) if x is not None]))
        return Step(y, v, nxt, no, nxt, s.done)
    return opaque_step(I, st, it, elty)


def opaque_step(I, st, it, elty):
    nx = I.fresh("next", None)
    c = t.bvar(mk("more", (it, nx)))
    return Step(cut(st, c), mk("elem", (it, nx), tn(I, elty)), mk("iterstate", (it, nx), it.ty), None, None, cut(st, bnot(c)))


def item_ty(I, tyid):
    """element type of an iterator type, from the model's own bookkeeping (None if unknown)"""
    P = I.prog
    td = P.types[tyid]
    a = td.get("adt", "")
    while td.get("k") == "ref":
        td = P.types[td["to"]]
        a = td.get("adt", "")
    ta = td.get("a") or []
    if a in ("core::ops::range::Range", "core::ops::range::RangeInclusive", "alloc::vec::into_iter::IntoIter", "alloc::vec::Vec"):
        return ta[0] if ta else None
    if a in ("core::slice::iter::Iter", "core::slice::iter::IterMut"):
        n = ("&" if a.endswith("Iter") else "&mut ") + P.tyname[ta[0]]
        return P.byname.get(n, ta[0])
    if a.startswith("core::iter::adapters"):
        nm = a.split("::")[-1]
        if nm in ("Enumerate", "Zip", "Map", "FilterMap", "MapWhile"):
            if nm == "Enumerate":
                x = item_ty(I, ta[0])
                return P.byname.get("(usize, %s)" % P.tyname[x]) if x is not None else None
            if nm in ("Map", "FilterMap", "MapWhile"):
                c = P.types[ta[1]]
                if c.get("k") == "closure":
                    fi = P.fns[c["inst"]]
                    if "blocks" in fi:
                        r = fi["locals"][0]
                        if nm != "Map":
                            x = P.types[r].get("a") or [None]
                            return x[0]
                        return r
            return None
        if nm in ("Cloned", "Copied"):
            x = item_ty(I, ta[0])
            return P.types[x].get("to") if x is not None else None
        return item_ty(I, ta[0]) if ta else None
    return None


def consume(I, st, it, elty, acc, on_elem, caller, span, tag):
    """run the loop  while let Some(x) = it.next() { (acc, exit?) = on_elem(acc, x) }.
    on_elem(state, acc, el) -> (continue state | None, acc, [(exit state, value)]).
    Returns (done state, acc at the end, [(exit state, value)])"""
    fr = I.stack[-1]
    rit = ("T", fr, I.curblk, I.substep, "it", tag)
    racc = ("T", fr, I.curblk, I.substep, "acc", tag)
    st = st.copy()
    st.mem[rit] = it
    if acc is not None:
        st.mem[racc] = acc
    out = {}
    saved = (I.curblk, I.substep)

    def step(H):
        I.curblk, I.substep = saved
        s = istep(I, H, H.mem[rit], elty, caller, span)
        backs = []
        out["exits"] = []
        if s.skip is not None:
            b = s.skip.copy()
            b.mem[rit] = s.snext
            backs.append(b)
        if s.y is not None and s.y.pc != FALSE:
            y = s.y.copy()
            y.mem[rit] = s.ynext
            a0 = H.mem.get(racc)
            cont, a1, exits = on_elem(y, a0, s.el)
            out["exits"] = exits
            if cont is not None and cont.pc != FALSE:
                cont = cont.copy()
                if a1 is not None:
                    cont.mem[racc] = a1
                backs.append(cont)
        out["done"] = s.done
        return I.join(backs)

    n = I.seqlen(simp(it, st.pc), st)
    if n is not None and n <= I.MAXUNROLL:
        kept = (dict(I.events), I.seq, dict(I.loopinfo), I.unr)
        H, exits = st, []
        for i in range(n + 1):
            I.unr = kept[3] + (((fr,) + saved + (tag,), i),)
            H = step(H.copy())
            exits += out["exits"]
            if H is None or (out["done"] is not None and out["done"].pc != FALSE):
                break
        I.unr = kept[3]
        if H is None:
            I.curblk, I.substep = saved
            done = out["done"]
            a = done.mem.get(racc) if done is not None else None
            for s in [done] + [x for x, _ in exits]:
                if s is not None:
                    s.mem.pop(rit, None)
                    s.mem.pop(racc, None)
            return done, a, exits, None
        I.events, I.seq, I.loopinfo = kept[:3]
    lid = (fr, saved[0], saved[1], tag) + I.unr
    H = I.fixpoint(lid, st, step, "iter")
    I.curblk, I.substep = saved
    done = out["done"]
    a = done.mem.get(racc) if done is not None else None
    res = []
    for s in [done] + [x for x, _ in out["exits"]]:
        if s is not None:
            s.mem.pop(rit, None)
            s.mem.pop(racc, None)
    return done, a, out["exits"], lid


def merge(I, pairs):
    """join [(state, value)]"""
    pairs = [(s, v) for s, v in pairs if s is not None and s.pc != FALSE]
    if not pairs:
        return None, None
    root = ("T", I.stack[-1], I.curblk, I.substep, "res")
    ss = []
    for s, v in pairs:
        s = s.copy()
        s.mem[root] = v
        ss.append(s)
    o = I.join(ss)
    return o, simp(o.mem.pop(root), o.pc)


def iterator(I, fi, item, args, argtys, argn, rn, dty, st, span, caller, crate):
    P = I.prog
    ity = argtys[0] if argtys else None
    byref = argn[0].startswith("&mut ") if argn else False
    if item == "next" and len(args) == 1:
        it = deref(I, st, args[0])
        elty = tyarg(I, dty)
        ps = I.ref_paths(args[0], st.pc)

        def put(s, v):
            s = s.copy()
            I.store(s, ps, v)
            return s

        s = istep(I, st, it, elty, caller, span)
        if s.skip is None:
            pairs = []
            if s.y is not None:
                pairs.append((put(s.y, s.ynext), some(I, dty, s.el)))
            if s.done is not None:
                pairs.append((s.done, none(I, dty)))
            return merge(I, pairs)
        root = ("T", I.stack[-1], I.curblk, I.substep, "nextit")

        def on(y, a, el):
            return None, None, [(y, some(I, dty, el))]

        done, _, exits, lid = consume(I, st, it, elty, None, on, caller, span, "next")
        # the advanced iterator is unknown after a filtered step
        h = I.fresh("iterafter", it.ty)
        return merge(I, [(put(s_, mk("iterstate", (it, h), it.ty)), v) for s_, v in exits] + [(done, none(I, dty))])
    if item in ADAPTORS:
        src = args[0]
        if item == "by_ref":
            return st, args[0]
        if byref and src.op == "ref":
            src = deref(I, st, src)
        e = item_ty(I, ity)
        et = iconst(e if e is not None else -1)
        if item == "rev":
            if src.op == "agg" and src.args[0] in ("SliceIter", "VecIter") and src.args[3].op == "int" and src.args[3].args[0] == 0:
                v = deref(I, st, src.args[2]) if src.args[0] == "SliceIter" else src.args[2]
                return st, agg("RevSlice", 0, [src, I.vlen(v)], rn)
            r = range_parts(I, src)
            if r and r[0] == "Range":
                return st, agg("RevRange", 0, [proj(src, 0, 0, r[2].name), proj(src, 0, 1, r[2].name)], rn)
            if r:
                return st, agg("RevRange", 0, [proj(src, 0, 0, r[2].name), t.add(proj(src, 0, 1, r[2].name), iconst(1))], rn)
            return st, mk("fn", ("rev", src), rn)
        if item == "enumerate":
            return st, agg("It:enumerate", 0, [src, iconst(0), et], rn)
        if item in ("cloned", "copied", "fuse", "peekable"):
            return st, agg("It:" + item, 0, [src, et], rn)
        if item in ("skip", "take"):
            return st, agg("It:" + item, 0, [src, args[1], et], rn)
        if item == "step_by":
            return st, mk("fn", ("step_by", src, args[1]), rn)
        if item in ("zip", "chain"):
            o = args[1]
            td = P.types[argtys[1]]
            if td.get("k") == "ref" and (P.types[td["to"]].get("adt") == "alloc::vec::Vec" or P.types[td["to"]].get("k") in ("array", "slice")):
                o = agg("SliceIter", 0, [o, iconst(0)])
            elif td.get("adt") == "alloc::vec::Vec":
                o = agg("VecIter", 0, [o, iconst(0)])
            oe = item_ty(I, argtys[1])
            return st, agg("It:" + item, 0, [src, o, iconst(oe if oe is not None else -1), et], rn)
        return st, agg("It:" + item, 0, [src, args[1], iconst(argtys[1]), et], rn)
    if item in CONSUMERS:
        src = args[0]
        if byref and (src.op == "ref" or src.op == "ite"):
            src = deref(I, st, args[0])
        elty = item_ty(I, ity)
        st = st.copy()
        cl = args[-1] if len(args) > 1 else None
        clty = argtys[-1] if len(args) > 1 else None
        if item in ("any", "position", "find") and src.op == "agg" and src.args[0] == "SliceIter" and src.args[3].op == "int" and src.args[3].args[0] == 0:
            # v.iter().any(|x| x == y) is containment
            seq = src.args[2]
            v = deref(I, st, seq)
            x = closure_eq(I, cl, clty, v, st, span, caller, item == "find")
            if x is not None:
                if item == "any":
                    return st, boolt(contains(I, v, x))
                pos = mk("position", (v, x), "usize")
                res = pos if item == "position" else extend(I, st, seq, ("i", pos, elty_of(I, elty)))
                return st, ite(contains(I, v, x), some(I, dty, res), none(I, dty))

        def call(s, al):
            r = I.call_closure(cl, clty, al, None, s, span, caller)
            if r is None:
                raise I.Error("closure of " + item)
            return r

        if item == "for_each":
            def on(y, a, el):
                r = call(y, [el])
                return r[0], None, []
            done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
            return done, unit()
        if item == "fold":
            def on(y, a, el):
                r = call(y, [a, el])
                return r[0], r[1], []
            done, a, ex, _ = consume(I, st, src, elty, args[1], on, caller, span, item)
            return done, a
        if item == "count":
            def on(y, a, el):
                return y, t.add(a, iconst(1)), []
            done, a, ex, _ = consume(I, st, src, elty, iconst(0), on, caller, span, item)
            return done, a
        if item == "sum" and intty(rn):
            def on(y, a, el):
                if tn(I, elty) and tn(I, elty).startswith("&"):
                    el = deref(I, y, el)
                return y, I.raw(y, caller, "Add", t.add(a, el), intty(rn)), []
            done, a, ex, _ = consume(I, st, src, elty, iconst(0), on, caller, span, item)
            return done, a
        if item in ("any", "all"):
            def on(y, a, el):
                r = call(y, [el])
                if r[0] is None:
                    return None, None, []
                c = as_bdd(r[1])
                stop = c if item == "any" else bnot(c)
                return cut(r[0], bnot(stop)), None, [(cut(r[0], stop), boolt(TRUE if item == "any" else FALSE))]
            done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
            return merge(I, ex + [(done, boolt(FALSE if item == "any" else TRUE))])
        if item == "find":
            def on(y, a, el):
                cell = I.tmp(y, el)
                r = call(y, [mk("ref", ((cell,),))])
                if r[0] is None:
                    return None, None, []
                c = as_bdd(r[1])
                return cut(r[0], bnot(c)), None, [(cut(r[0], c), some(I, dty, el))]
            done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
            return merge(I, ex + [(done, none(I, dty))])
        if item == "find_map":
            def on(y, a, el):
                r = call(y, [el])
                if r[0] is None:
                    return None, None, []
                c = is_variant(r[1], 1, 2)
                return cut(r[0], bnot(c)), None, [(cut(r[0], c), r[1])]
            done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
            return merge(I, ex + [(done, none(I, dty))])
        if item == "position":
            def on(y, a, el):
                r = call(y, [el])
                if r[0] is None:
                    return None, None, []
                c = as_bdd(r[1])
                return cut(r[0], bnot(c)), t.add(a, iconst(1)), [(cut(r[0], c), some(I, dty, a))]
            done, _, ex, _ = consume(I, st, src, elty, iconst(0), on, caller, span, item)
            return merge(I, ex + [(done, none(I, dty))])
        if item == "try_for_each" and rn.split("<")[0].split("::")[-1] == "Result":
            def on(y, a, el):
                r = call(y, [el])
                if r[0] is None:
                    return None, None, []
                c = is_variant(r[1], 0, 2)
                return cut(r[0], c), None, [(cut(r[0], bnot(c)), r[1])]
            done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
            return merge(I, ex + [(done, ok(I, dty, unit()))])
        if item == "collect":
            td = P.types[dty]
            if td.get("adt") == "alloc::vec::Vec":
                def on(y, a, el):
                    return y, mk("vpush", (a, el), rn), []
                done, a, ex, _ = consume(I, st, src, td["a"][0], mk("vnil", (rn,), rn), on, caller, span, item)
                return done, a
            if rn.split("<")[0].split("::")[-1] == "Result" and P.types[td["a"][0]].get("adt") == "alloc::vec::Vec":
                vn = P.tyname[td["a"][0]]
                def on(y, a, el):
                    c = is_variant(el, 0, 2)
                    return cut(y, c), mk("vpush", (a, proj(el, 0, 0, None)), vn), [(cut(y, bnot(c)), err(I, dty, proj(el, 1, 0, None)))]
                done, a, ex, _ = consume(I, st, src, elty, mk("vnil", (vn,), vn), on, caller, span, item)
                return merge(I, ex + [(done, ok(I, dty, a) if a is not None else None)])

        # anything else: run it for its effects, the result is an unknown function of the source
        def on(y, a, el):
            if cl is not None and item not in ("nth",):
                try:
                    r = I.call_closure(cl, clty, [el], None, y, span, caller)
                    if r is not None:
                        return r[0], None, []
                except Exception:
                    pass
            return y, None, []
        done, _, ex, _ = consume(I, st, src, elty, None, on, caller, span, item)
        return done, mk("fn", ("iter:" + item,) + tuple(I.deep(st, a) for a in [src] + list(args[1:])), rn)
    return NotImplemented


def closure_eq(I, cl, clty, v, st, span, caller, byref=False, neg=False):
    """if the predicate closure is `elem == y` for a y not depending on the element, return y"""
    P = I.prog
    td = P.types[clty]
    if td.get("k") != "closure":
        return None
    fi = P.fns[td["inst"]]
    if "blocks" not in fi:
        return None
    ety = P.types[fi["locals"][2]]
    depth = 0
    while ety.get("k") == "ref":
        ety = P.types[ety["to"]]
        depth += 1
    el = mk("sym", ("$elem",), ety["name"])
    a = el
    for _ in range(depth):
        a = mk("ref", ((("C", a),),))
    n0 = set(I.events)
    before = st.copy()
    r = I.call_closure(cl, clty, [a], None, before, span, caller)
    if r is None or r[0] is None or set(I.events) != n0:
        return None
    for root, x in r[0].mem.items():
        if root[0] != "T" and st.mem.get(root, x) is not x:
            return None
    b = as_bdd(r[1])
    if neg:
        b = bnot(b)
    y = solve_eq(I, b, el)
    return y if y is not None and t.eq(el, y) == b else None


def solve_eq(I, b, x):
    if x.ty in STRUCT_FIELDS:
        ys = []
        for i, fty in enumerate(STRUCT_FIELDS[x.ty]):
            y = solve_eq(I, b, proj(x, 0, i, fty))
            if y is None:
                return None
            ys.append(y)
        return agg(x.ty, 0, ys, x.ty)
    for at in t.batoms(b):
        if at.op == "ge0":
            p = t.to_poly(at.args[0])
            c = p.get((x,))
            if c in (1, -1):
                p.pop((x,))
                r = t.from_poly({m: -c * k for m, k in p.items()})
                for d in (0, 1, -1):
                    y = t.add(r, iconst(d))
                    if x not in sub_terms(y) and t.bimp(b, t.eq0(t.sub(x, y))):
                        return y
        if at.op == "eq" and x in at.args:
            return at.args[0] if at.args[1] is x else at.args[1]
    return None


def sub_terms(y):
    seen, todo = set(), [y]
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        for w in z.args:
            if isinstance(w, t.T):
                todo.append(w)
            elif isinstance(w, tuple):
                for q in w:
                    if isinstance(q, t.T):
                        todo.append(q)
                    elif isinstance(q, tuple):
                        for q2 in q:
                            if isinstance(q2, t.T):
                                todo.append(q2)
                            elif isinstance(q2, tuple):
                                todo += [z2 for z2 in q2 if isinstance(z2, t.T)]
    return seen


def t_state(st, mem):
    s = st.copy()
    s.mem = mem
    return s


# ---------------------------------------------------------------- strings, formatting
def text(rn):
    """Every run-time text is one abstract value: no property depends on the wording of a message."""
    return mk("text", (), rn)


def streq(a, b):
    """two texts are equal"""
    a, b = sorted((plain(a), plain(b)), key=lambda x: x.id)
    if a is b and a.op != "text":
        return t.boolt(TRUE)
    if a.op == b.op == "str":
        return t.boolt(FALSE)
    return mk("fn", ("streq", a, b), "bool")


def plain(x):
    while x.op in ("deref", "at"):
        x = x.args[0]
    return x


def m_str(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    if crate in ("gstd", "gcore") and item == "load" and "msg" in key and not args and fi.get("args"):
        return st, mk("sym", ("msg::load<%s>" % P.tyname[fi["args"][0]],), rn)
    if item in ("eq", "ne") and rn == "bool" and len(args) == 2:
        a, at = deref_all(I, st, args[0], argtys[0])
        b, bt = deref_all(I, st, args[1], argtys[1])
        if all(y.get("name") == "str" or y.get("adt") == "alloc::string::String" for y in (at, bt)):
            c = t.as_bdd(streq(a, b))
            return st, t.boolt(c if item == "eq" else bnot(c))
    if rn.endswith("traceable_result::TrackableError") and crate == "traceable_result":
        return st, agg(rn, 0, [mk("text", (), "trace")], rn)
    if crate == "traceable_result" and rn == "()":
        return st, unit()
    if key == "core::any::type_name":
        return st, mk("str", ("x" * 4096,), rn)
    if crate in LOCALS and P.types[dty].get("k") == "ref" and P.types[P.types[dty]["to"]].get("k") == "str" and decl.split("::")[-1] not in ("call", "call_once", "call_mut"):
        return st, text(rn)
    if key.startswith(("core::fmt::", "alloc::fmt::", "alloc::string::", "core::str::", "alloc::str::")) or adt in ("alloc::string::String", "core::fmt::Arguments") \
            or (std.get("k") == "str") or trait in ("alloc::string::ToString", "core::fmt::Display", "core::fmt::Debug"):
        if rn in ("!",):
            return NotImplemented
        if item == "clone" and len(args) == 1 and P.types[dty].get("adt") == "alloc::string::String":
            a, at = deref_all(I, st, args[0], argtys[0])
            if at.get("adt") == "alloc::string::String":
                return st, a
        if P.types[dty].get("adt") == "alloc::string::String":
            return st, text(rn)
        if item == "len" and args:
            a, _ = deref_all(I, st, args[0], argtys[0])
            if args[0].op == "str":
                a = args[0]
            if a.op == "str":
                return st, iconst(len(a.args[0]))
        if item == "get" and len(args) == 2 and rn.endswith("Option<&str>"):
            return st, some(I, dty, text("&str"))
        if P.types[dty].get("k") == "ref" and rn.endswith("str"):
            return st, args[0] if args[0].op == "str" else text(rn)
        return st, I.pure(key, args, dty, st)
    if trait in ("core::convert::From", "core::convert::Into") and (P.types[dty].get("adt") == "alloc::string::String") and crate not in LOCALS:
        return st, text(rn)
    return NotImplemented


# ---------------------------------------------------------------- Gear runtime
def m_gear(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    if crate in ("gstd", "gcore", "sails_rs", "gprimitives", "futures", "futures_util", "gear_core_errors") or trait.startswith("sails_rs::gstd"):
        if key in ("gstd::msg::basic::source", "gstd::msg::source", "gcore::msg::source") or item == "source" and crate in ("gstd", "gcore"):
            return st, mk("sym", ("msg::source",), rn)
        if trait == "sails_rs::gstd::ExecContext" or item == "actor_id" and "ExecContext" in decl:
            return st, mk("sym", ("msg::source",), rn)
        if crate in ("gstd", "gcore") and item in ("value", "program_id", "block_timestamp", "block_height", "id") and len(args) == 0:
            return st, mk("sym", ("env::" + key.split("::")[-2] + "::" + item,), rn)
        if item == "gas_available":
            return st, I.fresh("gas_available", rn)
        if item == "system_reserve_gas":
            I.event("gear", item, args, st, caller, span)
            return st, I.fresh(item, rn)
        if item == "load" and "msg" in key:
            return st, mk("sym", ("msg::load<%s>" % rn,), rn)
        if item == "reply_code" or item in ("reply_to", "load_bytes", "reply_deposit"):
            return st, mk("sym", ("msg::" + item,), rn)
        if item in ("leave", "exit", "wait", "wait_for", "wait_up_to") and "exec" in key:
            # ends this execution; what was done so far stays
            I.event("leave", item, [I.deep(st, a) for a in args], st, caller, span)
            return None, None
        if item.startswith("send") or item in ("handle_reply", "up_to", "exactly", "reply", "reply_bytes", "delay"):
            st = st.copy()
            deepargs = [I.deep(st, a) for a in args]
            v = I.fresh(item, rn)
            if item == "handle_reply" and P.tyname[argtys[0]] in rn:
                # the same future, with the hook attached
                f = args[0]
                v = ite(t.is_variant(v, 0, 2), agg(rn, 0, [f], rn), v)
            e = I.event("gear", item, deepargs, st, caller, span, ret=v)
            e.rawargs = list(args)
            e.argtys = list(argtys)
            return st, v
        if item in ("__notify_on", "notify_on"):
            ev = [I.deep(st, a) for a in args]
            I.event("notify", item, ev, st, caller, span)
            return st, mk("fn", ("notify-result",), rn) if rn != "()" else unit()
    return NotImplemented


def m_async(I, fi, item, sname, std, adt, trait, crate, key, args, argtys, argn, rn, dty, st, span, caller, decl):
    P = I.prog
    if item == "notify_on" and crate in LOCALS and len(args) == 2:
        # sails' generated event sink: the payload is what off-chain observers see
        I.event("notify", item, [I.deep(st, args[1])], st, caller, span)
        return st, mk("fn", ("notify-result",), rn)
    if key.startswith("futures") and item == "maybe_done":
        return st, mk("mdone", (args[0],), rn)
    if key.startswith("futures") and item == "poll_fn":
        return st, agg(rn, 0, [args[0]], rn)
    if (adt or "").endswith("::MaybeDone") or key.startswith("futures_util::future::maybe_done::"):
        if item in ("poll", "take_output"):
            md = deref_all(I, st, proj(args[0], 0, 0) if args[0].op == "agg" else args[0], argtys[0])[0]
            while md.op == "agg" and len(md.args) == 3:
                md = md.args[2]
            if md.op == "ref":
                md = I.load_paths(st, I.ref_paths(md, st.pc))
            tag = st.mem.get(("EPOCH",))
            if md.op == "mdone" and tag is not None and tag.op == "fresh":
                if item == "poll":
                    return st, agg(rn, 0, [unit()], rn)
                opt = tyarg(I, dty)
                return st, some(I, dty, mk("reply", (md.args[0], tag), tn(I, opt)))
            raise I.Error("MaybeDone used outside of a joined await")
    if decl == "core::future::future::Future::poll" or (trait == "core::future::future::Future" and item == "poll"):
        pin = P.types[argtys[0]]
        inner = None
        if pin.get("a"):
            r = P.types[pin["a"][0]]
            inner = r.get("to")
        if inner is None:
            return NotImplemented
        itd = P.types[inner]
        ptr = proj(args[0], 0, 0) if args[0].op == "agg" else proj(args[0], 0, 0, P.tyname[pin["a"][0]])
        if itd.get("k") == "coroutine":
            fi2 = P.fns[itd["inst"]]
            env = deref(I, st, ptr, itd["name"])
            st2, v = I.run(fi2, [env, mk("sym", ("task-context",))][: max(fi2["argc"], 1)], st)
            if st2 is None:
                return None, None
            return st2, agg(rn, 0, [v], rn)
        if itd.get("adt", "").endswith("PollFn"):
            fut = deref(I, st, ptr, itd["name"])
            cl = proj(fut, 0, 0)
            st = suspend(I, itd["name"], [I.deep(st, cl)], st, span, caller)
            cty = itd["a"][0] if itd.get("a") else None
            for a in itd.get("a") or []:
                if P.types[a].get("k") == "closure":
                    cty = a
            if cty is None:
                return NotImplemented
            st.mem[("T", "pollfn", I.curblk)] = cl
            cref = refto(I, (("T", "pollfn", I.curblk),))
            return I.run(P.fns[P.types[cty]["inst"]], [cref, mk("sym", ("task-context",))], st)
        return await_point(I, itd, ptr, dty, st, span, caller)
    if item == "get_context" and key.startswith("core::future"):
        return st, mk("ref", ((("C", mk("sym", ("task-context",))),),))
    return NotImplemented


def suspend(I, name, what, st, span, caller):
    """Suspension: what was done so far is committed here; other messages run before the reply arrives."""
    ev = I.event("await", name, what, st, caller, span)
    st = st.copy()
    tag = ev.tag = I.fresh("await", None)
    for root in list(st.mem):
        if root[0] == "S":
            st.mem[root] = mk("after", (tag, root[1]), st.mem[root].ty or (root[2] if len(root) > 2 else None))
            st.mem[("PRE", root)] = ev.after = st.mem[root]
    st.mem[("EPOCH",)] = tag
    return st


def await_point(I, itd, ptr, dty, st, span, caller):
    P = I.prog
    rn = P.tyname[dty]
    fut = deref(I, st, ptr, itd["name"])
    st = suspend(I, itd["name"], [fut], st, span, caller)
    opt = tyarg(I, dty)
    reply = mk("reply", (fut, st.mem[("EPOCH",)]), tn(I, opt))
    return st, agg(rn, 0, [reply], rn)


MODELS = [m_async, m_str, m_basic, m_int, m_mem, m_map, m_vec, m_gear]
