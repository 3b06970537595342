"""Abstract interpreter over the dumped MIR: gated value numbering with BDD path predicates.

One forward pass in weak topological order over the inlined control-flow graph of an entry point.
States are joined at every merge point (values become gated `ite` nodes, path predicates are or-ed);
loops are iterated to a fixpoint with symbolic loop phis.  Nothing is executed and no path is
enumerated.
"""
import itertools
import json
from . import terms as t
from .terms import (TRUE, FALSE, band, bor, bnot, bimp, bite, brestrict, mk, iconst, ite, simp, proj,
                    agg, is_variant, boolt, as_bdd, INT_TYPES, BIG, IntTy, STRUCT_FIELDS, ENUM_VARIANTS)


class AnalysisError(Exception):
    pass


class Prog:
    """A dumped crate: types and monomorphic functions."""

    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = d["roots"]
        self.consts = {k: (ty, v) for k, ty, v in d["consts"]}
        self.tyname = [x["name"] for x in self.types]
        self.byname = {}
        for i, x in enumerate(self.types):
            self.byname.setdefault(x["name"], i)
        for x in self.types:
            self._reg(x)
        self.bykey = {}
        for f in self.fns:
            self.bykey.setdefault(f["key"], []).append(f)
        self._wto = {}

    def _reg(self, x):
        k = x.get("k")
        n = x["name"]
        if k == "struct":
            fs = x["v"][0]["f"]
            if len(fs) == 1:
                ft = self.types[fs[0][1]]
                if ft.get("k") == "array" and ft["name"].startswith("[u64;") and n.split("::")[-1][0] == "U" and n.split("::")[-1][1:].isdigit():
                    BIG[n] = IntTy(n, 64 * ft["n"], False)
                    return
            a = x["adt"]
            if a.startswith(("hashbrown::", "alloc::", "std::", "gprimitives::")):
                return
            STRUCT_FIELDS[n] = [self.tyname[i] for _, i in fs]
        elif k == "tuple":
            STRUCT_FIELDS[n] = [self.tyname[i] for i in x["a"]]
        elif k in ("closure", "coroutine"):
            STRUCT_FIELDS[n] = [self.tyname[i] for i in x["a"]]
        elif k == "enum":
            ENUM_VARIANTS[n] = len(x["v"])

    def ty(self, i):
        return self.types[i]

    def wto(self, f):
        w = self._wto.get(f["id"])
        if w is None:
            w = wto(f)
            self._wto[f["id"]] = w
        return w


def succs(term):
    k = term[0]
    if k in ("goto", "yield"):
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[3]]
    return []


def wto(f):
    """Bourdoncle weak topological order: list of block | (head, [components])"""
    blocks = f["blocks"]
    g = {i: [s for s in dict.fromkeys(succs(b["t"])) if blocks[s] is not None] for i, b in enumerate(blocks) if b}

    def comps(nodes, entry):
        # SCCs in topological order of the subgraph `nodes`
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]

        def strong(v0):
            work = [(v0, iter([w for w in g[v0] if w in nodes]))]
            index[v0] = low[v0] = cnt[0]
            cnt[0] += 1
            st.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([x for x in g[w] if x in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)

        for e in entry:
            if e in nodes and e not in index:
                strong(e)
        out.reverse()
        res = []
        for c in out:
            if len(c) == 1 and c[0] not in g[c[0]]:
                res.append(c[0])
            else:
                cs = set(c)
                # head: the block of the component entered from outside (or an entry)
                heads = [x for x in c if x == 0 or any(x in g[p] for p in g if p not in cs)]
                if len(heads) != 1:
                    raise AnalysisError("loop with several entries in " + f["name"])
                head = heads[0]
                inner = cs - {head}
                sub = comps(inner, [w for w in g[head] if w in inner] + sorted(inner))
                res.append((head, sub))
        return res

    return comps(set(g), [0])


class St:
    __slots__ = ("pc", "mem")

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def copy(self, pc=None):
        return St(self.pc if pc is None else pc, dict(self.mem))


def leaves(x, out):
    if x.op == "ite":
        leaves(x.args[1], out)
        leaves(x.args[2], out)
    else:
        out.append(x)


def onleaves(x, f):
    if x.op == "ite":
        return ite(x.args[0], onleaves(x.args[1], f), onleaves(x.args[2], f))
    return f(x)


def payloads(o, g):
    """o, known to be of g's variant, as an aggregate of its payloads"""
    return mk("agg", g.args[:2] + tuple(proj(o, g.args[1], i, q.ty) for i, q in enumerate(g.args[2:])), o.ty)


class Event:
    def __init__(self, kind, name, args, st, span, ctx, seq, frame, ret=None, loops=()):
        self.kind, self.name, self.args, self.span, self.ctx, self.seq = kind, name, args, span, ctx, seq
        self.pc = st.pc
        self.mem = dict(st.mem) if st is not None else {}
        self.frame = frame
        self.ret = ret
        self.loops = loops

    def __repr__(self):
        return "<%s %s(%s) if %s @%s>" % (self.kind, self.name, ", ".join(map(str, self.args)), t.bshow(self.pc, 3), self.span)


FRAMES = itertools.count(1)  # unique over all analyses of the process: loop and fresh values never clash


class Interp:
    def __init__(self, prog, opaque=None, entry_syms=None, max_depth=120):
        self.prog = prog
        self.opaque = opaque  # fn(fninfo) -> None | True (pure uninterpreted) | callable model
        self.events = {}
        self.seq = 0
        self.loops = []
        self.loopinfo = {}
        self.unknown = {}
        self.frames = {}
        self.framefn = {}
        self.stack = []
        self.visited = set()
        self.ncalls = 0
        self.max_depth = max_depth
        self.epoch = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ memory
    def initial(self, root):
        if root[0] == "C":
            return root[1]
        if root[0] == "S":
            return mk("sym", ("static:%s@%d" % (root[1], self.epoch),), root[2] if len(root) > 2 else None)
        if root[0] == "D":
            return mk("deref", (root[1], self.epoch), root[2])
        if root[0] == "A":
            return mk("sym", (root[1],), root[2])
        return None

    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.initial(root)
            if v is None:
                return mk("undef", (root[0],))
        return v

    def project(self, v, p, st=None):
        k = p[0]
        if k == "f":
            return proj(v, p[2], p[1], p[3])
        if k == "k":
            return t.msel(v, p[1], p[2])
        if k == "i":
            return self.vidx(v, p[1], p[2])
        if k == "o":  # opaque view (e.g. unsupported projection)
            return mk("fn", ("view",) + tuple(p[1:]) + (v,), None)
        raise AnalysisError("project %r" % (p,))

    def vidx(self, v, i, ty):
        if v.op == "agg" and i.op == "int" and 0 <= i.args[0] < len(v.args) - 2:
            return v.args[2 + i.args[0]]
        if v.op == "vpush":
            e = t.eq0(t.sub(i, self.vlen(v.args[0])))
            if e == TRUE:
                return v.args[1]
            if e == FALSE:
                return self.vidx(v.args[0], i, ty)
            return ite(e, v.args[1], self.vidx(v.args[0], i, ty))
        if v.op == "ite":
            return ite(v.args[0], self.vidx(v.args[1], i, ty), self.vidx(v.args[2], i, ty))
        if v.op == "vset":
            e = t.eq0(t.sub(i, v.args[1]))
            return v.args[2] if e == TRUE else self.vidx(v.args[0], i, ty) if e == FALSE else ite(e, v.args[2], self.vidx(v.args[0], i, ty))
        if v.op == "rep":
            return v.args[0]
        if v.op == "limbs":
            if i.op == "int":
                return self.limb(v.args[0], i.args[0], v.args[1])
        return mk("idx", (v, i), ty)

    def limb(self, x, i, n):
        if x.op == "int":
            return iconst((x.args[0] >> (64 * i)) & ((1 << 64) - 1))
        r = t.rng(x)
        if r[0] >= 0 and r[1] < (1 << (64 * i)):
            return iconst(0)
        if i == 0 and r[0] >= 0 and r[1] < (1 << 64):
            return x
        return mk("limb", (x, i, n), "u64")

    def load(self, st, path):
        v = self.rootval(st, path[0])
        for p in path[1:]:
            v = self.project(v, p)
        return v

    def inject(self, v, projs, val, ty=None):
        if not projs:
            return val
        p = projs[0]
        k = p[0]
        if k == "f":
            i, variant = p[1], p[2]
            if v.op == "ite":
                # update below a gated value: push into both sides
                return ite(v.args[0], self.inject(v.args[1], projs, val), self.inject(v.args[2], projs, val))
            if v.op == "agg":
                if v.args[1] != variant:
                    return v
                if 2 + i < len(v.args):
                    fs = list(v.args[2:])
                    fs[i] = self.inject(fs[i], projs[1:], val)
                    return agg(v.args[0], variant, fs, v.ty)
                # partially initialised aggregate
                fs = list(v.args[2:])
                while len(fs) <= i:
                    fs.append(mk("undef", (variant, len(fs))))
                fs[i] = self.inject(fs[i], projs[1:], val)
                return agg(v.args[0], variant, fs, v.ty)
            if v.ty in STRUCT_FIELDS:
                fts = STRUCT_FIELDS[v.ty]
                fs = [proj(v, 0, j, ft) for j, ft in enumerate(fts)]
                fs[i] = self.inject(fs[i], projs[1:], val)
                return agg(v.ty, 0, fs, v.ty)
            nm = p[4] if len(p) > 4 else None
            if nm and nm in self.prog.byname:
                td = self.prog.types[self.prog.byname[nm]]
                if td.get("k") in ("enum", "struct"):
                    n = len(td["v"][variant]["f"])
                    fs = [proj(v, variant, j, self.prog.tyname[td["v"][variant]["f"][j][1]]) for j in range(n)]
                    fs[i] = self.inject(fs[i], projs[1:], val)
                    return agg(nm, variant, fs, nm)
                if td.get("k") in ("tuple", "closure", "coroutine"):
                    fs = [proj(v, 0, j, self.prog.tyname[x]) for j, x in enumerate(td["a"])]
                    fs[i] = self.inject(fs[i], projs[1:], val)
                    return agg(nm, 0, fs, nm)
            return mk("upd", (v, variant, i, self.inject(proj(v, variant, i, p[3]), projs[1:], val)), v.ty)
        if k == "k":
            old = t.msel(v, p[1], p[2])
            return t.mset(v, p[1], self.inject(old, projs[1:], val))
        if k == "i":
            if v.op == "agg" and p[1].op == "int" and p[1].args[0] < len(v.args) - 2:
                fs = list(v.args[2:])
                fs[p[1].args[0]] = self.inject(fs[p[1].args[0]], projs[1:], val)
                return agg(v.args[0], v.args[1], fs, v.ty)
            old = self.vidx(v, p[1], p[2])
            return mk("vset", (v, p[1], self.inject(old, projs[1:], val)), v.ty)
        if k == "o":
            return mk("fn", ("updview",) + tuple(p[1:]) + (v, val), v.ty)
        raise AnalysisError("inject %r" % (p,))

    def store(self, st, paths, val, ev=True):
        """paths: [(cond, path)]"""
        for c, path in paths:
            root = path[0]
            if root[0] == "C":
                continue
            if root[0] in ("S", "D", "A") or len(path) > 1:
                old = self.rootval(st, root)
            else:
                old = None
            if c == TRUE or bimp(st.pc, c):
                v = val
            else:
                v = ite(c, val, self.load(st, path))
            new = self.inject(old, path[1:], v) if len(path) > 1 else v
            st.mem[root] = new

    # ------------------------------------------------------------ places
    def ref_paths(self, v, pc, ty=None):
        """paths a reference value may denote: [(cond, path)]"""
        if v.op == "ref":
            return [(TRUE, v.args[0])]
        if v.op == "ite":
            c = v.args[0]
            a = [] if band(pc, c) == FALSE else self.ref_paths(v.args[1], band(pc, c), ty)
            b = [] if band(pc, bnot(c)) == FALSE else self.ref_paths(v.args[2], band(pc, bnot(c)), ty)
            if not b:
                return a
            if not a:
                return b
            return [(band(c, x), p) for x, p in a] + [(band(bnot(c), x), p) for x, p in b]
        if v.op == "agg" and len(v.args) == 3:  # Box/Pin/NonNull wrappers
            return self.ref_paths(v.args[2], pc, ty)
        return [(TRUE, (("D", v, ty),))]

    def place(self, st, frame, f, pl):
        """resolve a MIR place to [(cond, path)] and its type id"""
        local, projs = pl
        P = self.prog
        paths = [(TRUE, (("L", frame, local),))]
        ty = f["locals"][local]
        variant = 0
        for p in projs:
            k = p[0]
            if k == "*":
                td = P.types[ty]
                to = td.get("to")
                if to is None and td.get("k") == "struct" and td.get("a"):
                    to = td["a"][0]  # Box
                toname = P.tyname[to] if to is not None else None
                out = []
                for c, path in paths:
                    v = simp(self.load(st, path), st.pc)
                    for c2, p2 in self.ref_paths(v, band(st.pc, c), toname):
                        cc = band(c, c2)
                        if cc != FALSE:
                            out.append((cc, p2))
                paths = out
                ty = to if to is not None else ty
                variant = 0
            elif k == "v":
                variant = p[1]
            elif k == "f":
                fty = p[2]
                pn = P.tyname[ty]
                if pn in BIG:
                    # raw limbs of a big integer
                    paths = [(c, path + (("limbs", pn),)) for c, path in paths]
                else:
                    paths = [(c, path + (("f", p[1], variant, P.tyname[fty], pn),)) for c, path in paths]
                ty = fty
                variant = 0
            elif k == "i":
                idx = self.load(st, (("L", frame, p[1]),))
                td = P.types[ty]
                ty = td.get("to", ty)
                paths = [(c, path + (("i", idx, P.tyname[ty]),)) for c, path in paths]
            elif k == "c":
                td = P.types[ty]
                ety = td.get("to", ty)
                if p[3]:
                    out = []
                    for c, path in paths:
                        n = self.vlen(self.load(st, path), P.types[ty])
                        out.append((c, path + (("i", t.sub(n, iconst(p[1])), P.tyname[ety]),)))
                    paths = out
                else:
                    paths = [(c, path + (("i", iconst(p[1]), P.tyname[ety]),)) for c, path in paths]
                ty = ety
            else:
                paths = [(c, path + (("o", k) + tuple(x for x in p[1:]),)) for c, path in paths]
        return paths, ty

    def vlen(self, v, td=None):
        if v.op == "str":
            return iconst(len(v.args[0]))
        if v.op == "deref" and v.args[0].op == "str":
            return iconst(len(v.args[0].args[0]))
        if td is not None and td.get("k") == "array" and td.get("n") is not None:
            return iconst(td["n"])
        if v.op == "vnil":
            return iconst(0)
        if v.op == "vpush":
            return t.add(self.vlen(v.args[0]), iconst(1))
        if v.op == "vset":
            return self.vlen(v.args[0])
        if v.op == "agg":
            return iconst(len(v.args) - 2)
        if v.op == "ite":
            return ite(v.args[0], self.vlen(v.args[1]), self.vlen(v.args[2]))
        return mk("len", (v,), "usize")

    def load_paths(self, st, paths):
        v = None
        for c, path in reversed(paths):
            x = self.load_limbs(st, path)
            v = x if v is None else ite(c, x, v)
        return v if v is not None else mk("undef", ("nopath",))

    def load_limbs(self, st, path):
        for i, p in enumerate(path[1:], 1):
            if p[0] == "limbs":
                base = self.load(st, path[:i])
                n = BIG[p[1]].bits // 64
                v = mk("limbs", (base, n))
                for q in path[i + 1:]:
                    v = self.project(v, q)
                return v
        return self.load(st, path)

    # ------------------------------------------------------------ operands
    def const(self, tyid, c, name=None):
        P = self.prog
        tn = P.tyname[tyid]
        td = P.types[tyid]
        if "i" in c:
            if tn == "bool":
                return boolt(TRUE if c["i"] != "0" else FALSE)
            return iconst(int(c["i"]))
        if "fn" in c:
            return mk("fndef", (json.dumps(c["fn"], sort_keys=True),), tn)
        if "s" in c:
            return mk("str", (c["s"],), tn)
        if "b" in c:
            return mk("ref", (((("C", mk("agg", ("[u8]", 0) + tuple(iconst(x) for x in c["b"]))),)),), tn)
        if "static" in c:
            to = td.get("to")
            return mk("ref", ((("S", c["static"], P.tyname[to] if to is not None else None),),), tn)
        if "ref" in c:
            inner = self.const(c["ref"][0], c["ref"][1])
            return mk("ref", ((("C", inner),),), tn)
        if "fnptr" in c:
            return mk("fnptr", (c["fnptr"],), tn)
        if "f" in c:
            fs = [self.const(ft, fv) for ft, fv in c["f"]]
            if tn in BIG:
                limbs = fs[0].args[2:]
                return iconst(sum(x.args[0] << (64 * i) for i, x in enumerate(limbs)))
            return agg(tn, c["v"], fs, tn)
        if td.get("k") in ("closure",) and not td["a"]:
            return agg(tn, 0, [], tn)
        if tn == "()":
            return agg("()", 0, [])
        return mk("const", (name or "", tn, json.dumps(c, sort_keys=True)), tn)

    def operand(self, st, frame, f, o):
        if o[0] == "k":
            return self.const(o[1], o[2], o[3] if len(o) > 3 else None)
        paths, ty = self.place(st, frame, f, o[1])
        v = self.load_paths(st, paths)
        v = simp(v, st.pc)
        if v.ty is None and v.op not in ("int", "poly"):
            v.ty = self.prog.tyname[ty]
        return v

    def optype(self, f, o):
        if o[0] == "k":
            return o[1]
        return self.place_type(f, o[1])

    def place_type(self, f, pl):
        P = self.prog
        ty = f["locals"][pl[0]]
        for p in pl[1]:
            if p[0] == "*":
                td = P.types[ty]
                to = td.get("to")
                if to is None and td.get("a"):
                    to = td["a"][0]
                ty = to if to is not None else ty
            elif p[0] == "f":
                ty = p[2]
            elif p[0] in ("i", "c"):
                ty = P.types[ty].get("to", ty)
        return ty

    # ------------------------------------------------------------ rvalues
    def ity(self, tn):
        if tn in INT_TYPES:
            return INT_TYPES[tn]
        return BIG.get(tn)

    def rvalue(self, st, frame, f, r, dty):
        P = self.prog
        k = r[0]
        if k == "use":
            return self.operand(st, frame, f, r[1])
        if k == "ref":
            paths, ty = self.place(st, frame, f, r[1])
            v = None
            for c, path in reversed(paths):
                x = mk("ref", (path,), P.tyname[dty])
                v = x if v is None else ite(c, x, v)
            if v is None:
                return mk("undef", ("ref",))
            return v
        if k == "cast":
            v = self.operand(st, frame, f, r[2])
            src = P.tyname[self.optype(f, r[2])]
            dst = P.tyname[r[3]]
            if r[1] == "IntToInt":
                if src == "bool":
                    v = ite(as_bdd(v), iconst(1), iconst(0))
                di = self.ity(dst)
                sd = P.types[self.optype(f, r[2])]
                if sd.get("k") == "enum":
                    v = self.disc(v, sd)
                if di is None:
                    return mk("fn", ("cast:" + dst, v), dst)
                if self.fits(st.pc, v, di):
                    return v
                self.event("cast", "%s as %s" % (src, dst), [v], st, f, None)
                return t.wrap(di, v)
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute", "FnPtrToPtr", "Subtype"):
                if r[1] == "Transmute" and src != dst and not (v.op in ("ref",)):
                    if v.op == "agg" and len(v.args) == 3 and v.args[2].op == "ref":
                        return v.args[2]
                    return mk("fn", ("transmute:" + dst, v), dst)
                return v
            if r[1] == "BoxDerefTransmute" and v.op == "ref":
                return v
            return mk("fn", ("cast:" + r[1] + dst, v), dst)
        if k == "bin":
            a = self.operand(st, frame, f, r[2])
            b = self.operand(st, frame, f, r[3])
            return self.binop(st, f, r[1], a, b, P.tyname[self.optype(f, r[2])], P.tyname[dty])
        if k == "un":
            a = self.operand(st, frame, f, r[2])
            ta = P.tyname[self.optype(f, r[2])]
            if r[1] == "Not":
                if ta == "bool":
                    return boolt(bnot(as_bdd(a)))
                it = self.ity(ta)
                if it:
                    if it.signed:
                        return t.sub(iconst(-1), a)
                    return t.sub(iconst(it.hi), a)
            if r[1] == "Neg":
                it = self.ity(ta)
                v = t.neg(a)
                if it:
                    return self.raw(st, f, "neg", v, it)
            if r[1] == "PtrMetadata":
                v = self.operand(st, frame, f, r[2])
                ps = self.ref_paths(v, st.pc)
                out = None
                for c, path in reversed(ps):
                    x = self.vlen(self.load(st, path))
                    out = x if out is None else ite(c, x, out)
                return out
            return mk("fn", ("un:" + r[1], a), P.tyname[dty])
        if k == "disc":
            paths, ty = self.place(st, frame, f, r[1])
            v = simp(self.load_paths(st, paths), st.pc)
            return self.disc(v, P.types[ty])
        if k == "agg":
            ops = [self.operand(st, frame, f, o) for o in r[2]]
            kind = r[1][0]
            tn = P.tyname[dty]
            if kind == "adt":
                if tn in BIG:
                    return self.from_limbs(ops[0], BIG[tn], st.pc)
                if r[1][2] is not None:
                    return mk("fn", ("union", tn) + tuple(ops), tn)
                return agg(tn, r[1][1], ops, tn)
            if kind == "rawptr":
                return ops[0]
            return agg(tn, 0, ops, tn)
        if k == "rep":
            a = self.operand(st, frame, f, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return agg(P.tyname[dty], 0, [a] * n, P.tyname[dty])
            return mk("rep", (a, n if n is not None else "?"), P.tyname[dty])
        if k == "static":
            return mk("ref", ((("S", r[1], None),),), P.tyname[dty])
        raise AnalysisError("rvalue %r" % (r,))

    def from_limbs(self, arr, it, pc=TRUE):
        n = it.bits // 64
        if arr.op == "limbs" and arr.args[1] == n:
            return arr.args[0]
        if arr.op == "agg":
            ls = arr.args[2:]
            # limbs of one value followed by zeros
            tot = iconst(0)
            i = 0
            while i < n:
                l = ls[i]
                if l.op == "limb" and l.args[1] == i == 0:
                    x = l.args[0]
                    j = 0
                    while j < n and ls[j].op == "limb" and ls[j].args[0] is x and ls[j].args[1] == j:
                        j += 1
                    m = l.args[2]
                    part = x if j == m or t.rng(x)[1] < (1 << (64 * j)) or bimp(pc, t.ge0(t.sub(iconst((1 << (64 * j)) - 1), x))) else t.mod(x, iconst(1 << (64 * j)))
                    tot = t.add(tot, part)
                    i = j
                else:
                    tot = t.add(tot, t.mul(l, iconst(1 << (64 * i))))
                    i += 1
            return tot
        return mk("fn", ("from_limbs", arr), it.name)

    def disc(self, v, td):
        if td.get("k") != "enum":
            return mk("fn", ("disc", v), None)
        ds = [int(x["d"]) for x in td["v"]]
        if v.op == "agg":
            return iconst(ds[v.args[1]])
        if v.op == "ite":
            return ite(v.args[0], self.disc(v.args[1], td), self.disc(v.args[2], td))
        if v.op == "undef":
            return iconst(0)
        n = len(ds)
        if n == 1:
            return iconst(ds[0])
        if n == 2:
            return ite(is_variant(v, 1, 2), iconst(ds[1]), iconst(ds[0]))
        r = iconst(ds[n - 1])
        for i in range(n - 1):
            r = mk("disc", (v, n, tuple(ds)), None)
        return r

    def fits(self, pc, v, it):
        """the exact integer v provably lies in the range of `it` under the path predicate"""
        lo, hi = t.rng(v)
        if lo >= it.lo and hi <= it.hi:
            return True
        return (lo >= it.lo or bimp(pc, t.ge0(t.sub(v, iconst(it.lo))))) and \
            (hi <= it.hi or bimp(pc, t.ge0(t.sub(iconst(it.hi), v))))

    def raw(self, st, f, op, exact, it):
        """the fixed-width result of an operation with the exact result `exact`"""
        if self.fits(st.pc, exact, it):
            return exact
        self.event("raw", op, [exact], st, f, None, extra=it.name)
        return t.wrap(it, exact)

    def binop(self, st, f, op, a, b, ta, td):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ta == "bool":
            x, y = as_bdd(a), as_bdd(b)
            m = {"BitAnd": band, "BitOr": bor, "BitXor": t.bxor, "Ne": t.bxor}
            if base in m:
                return boolt(m[base](x, y))
            if base == "Eq":
                return boolt(bnot(t.bxor(x, y)))
        it = self.ity(ta)
        if base in ("Eq", "Ne"):
            if it:
                e = t.eq0(t.sub(a, b)) if not (a.op == "disc" or b.op == "disc") else self.eqdisc(a, b)
            else:
                e = t.eq(a, b)
            return boolt(e if base == "Eq" else bnot(e))
        if base in ("Lt", "Le", "Gt", "Ge"):
            if it:
                r = {"Lt": t.lt, "Le": t.le, "Gt": lambda x, y: t.lt(y, x), "Ge": lambda x, y: t.le(y, x)}[base](a, b)
                return boolt(r)
            return boolt(t.bvar(mk("b", (mk("fn", (base, a, b)),))))
        if base == "Cmp":
            return self.ordering(t.lt(a, b), t.eq0(t.sub(a, b)))
        if it is None:
            return mk("fn", ("bin:" + base, a, b), td)
        if base in ("Add", "Sub", "Mul"):
            e = {"Add": t.add, "Sub": t.sub, "Mul": t.mul}[base](a, b)
            if op.endswith("WithOverflow"):
                lo, hi = t.rng(e)
                ov = bor(t.ge0(t.sub(e, iconst(it.hi + 1))), t.ge0(t.sub(iconst(it.lo - 1), e)))
                return agg(td, 0, [t.wrap(it, e), boolt(ov)], td)
            return self.raw(st, f, base, e, it)
        if base == "Div":
            return t.div(a, b) if not it.signed else t.tdiv(a, b)
        if base == "Rem":
            return t.mod(a, b) if not it.signed else t.trem(a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return t.bitop(base[3:].lower(), a, b)
        if base == "Shl":
            if b.op == "int":
                n = b.args[0] % it.bits
                return t.wrap(it, t.mul(a, iconst(1 << n)))
            if a.op == "int" and a.args[0] == 1:
                return mk("pow", (iconst(2), t.mod(b, iconst(it.bits)) if t.rng(b)[1] >= it.bits else b), ta)
            return mk("fn", ("shl", a, b), ta)
        if base == "Shr":
            if b.op == "int":
                n = b.args[0] % it.bits
                return t.div(a, iconst(1 << n))
            return mk("fn", ("shr", a, b), ta)
        return mk("fn", ("bin:" + base, a, b), td)

    def eqdisc(self, a, b):
        if b.op == "disc" and a.op != "disc":
            a, b = b, a
        if a.op == "ite":
            return bite(a.args[0], self.eqdisc(a.args[1], b), self.eqdisc(a.args[2], b))
        if b.op == "ite":
            return bite(b.args[0], self.eqdisc(a, b.args[1]), self.eqdisc(a, b.args[2]))
        if a.op == "disc" and b.op == "int":
            v, n, ds = a.args
            for i, d in enumerate(ds):
                if d == b.args[0]:
                    return is_variant(v, i, n)
            return FALSE
        if a.op == "disc" and b.op == "disc":
            v, n, ds = a.args
            w, m, es = b.args
            if v is w:
                return TRUE
            x, y = sorted((v, w), key=lambda q: q.id)
            return t.bvar(mk("eqvar", (x, y)))
        return t.eq0(t.sub(a, b))

    def ordering(self, lt_, eq_):
        n = "core::cmp::Ordering"
        for k in self.prog.byname:
            if k.endswith("cmp::Ordering"):
                n = k
        ENUM_VARIANTS[n] = 3
        L, E, G = agg(n, 0, [], n), agg(n, 1, [], n), agg(n, 2, [], n)
        return ite(lt_, L, ite(eq_, E, G))

    # ------------------------------------------------------------ events
    def event(self, kind, name, args, st, f, span, extra=None, ret=None):
        key = (self.stack[-1] if self.stack else "", self.curblk, kind, name, span, self.substep)
        if self.unr:
            key = key + self.unr
        if kind in ("raw", "cast"):
            key = key + (args[0].id if not self.loops else 0,)
        self.seq += 1
        e = Event(kind, name, args, st, span or (self.curspan), "/".join(map(str, self.callpath)), self.seq,
                  f["key"] if f else "", ret, tuple(self.loops))
        e.extra = extra
        if key in self.events:
            e.seq = self.events[key].seq
        self.events[key] = e
        return e

    def fresh(self, name, ty=None):
        """a new unknown value, per call site and loop iteration"""
        toks = tuple(mk("phi", (l, "#")) for l in self.loops)
        return mk("fresh", (name, self.stack[-1] if self.stack else 0, self.curblk, self.substep) + toks + self.unr, ty)

    # ------------------------------------------------------------ joins
    def join(self, states):
        states = [s for s in states if s.pc != FALSE]
        if not states:
            return None
        s = states[0]
        for o in states[1:]:
            s = self.join2(s, o)
        return s

    def join2(self, a, b):
        pc = bor(a.pc, b.pc)
        c = brestrict(a.pc, pc)
        if c in (TRUE, FALSE):
            c = a.pc
        mem = {}
        am, bm = a.mem, b.mem
        for r, x in am.items():
            y = bm.get(r)
            if y is x:
                mem[r] = x
                continue
            if y is None:
                if r[0] == "L":
                    continue
                y = self.initial(r)
                if y is None:
                    continue
            mem[r] = x if x is y else self.joinv(c, x, y)
        for r, y in bm.items():
            if r not in am and r[0] != "L":
                x = self.initial(r)
                if x is not None:
                    mem[r] = self.joinv(c, x, y)
        return St(pc, mem)

    def joinv(self, c, x, y):
        if x.op == "undef":
            return y
        if y.op == "undef":
            return x
        return ite(c, x, y)

    # ------------------------------------------------------------ function bodies
    def run(self, f, args, st):
        """Inline f: returns (state, value); state is None if every path diverges."""
        if "blocks" not in f:
            raise AnalysisError("no body: " + f["name"])
        if len(self.stack) > self.max_depth:
            raise AnalysisError("inlining too deep at " + f["name"])
        self.visited.add(f["id"])
        self.ncalls += 1
        site = (self.stack[-1] if self.stack else 0, self.curblk if self.stack else 0, self.substep if self.stack else 0, f["id"]) + self.unr
        frame = self.frames.get(site)
        if frame is None:
            frame = self.frames[site] = next(FRAMES)
            self.framefn[frame] = f
        if frame in self.stack:
            raise AnalysisError("recursion at " + f["name"])
        saved = (getattr(self, "curblk", 0), getattr(self, "substep", 0), getattr(self, "curspan", ""))
        self.stack.append(frame)
        self.callpath.append(f["item"] or f["key"].split("::")[-1])
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", frame, i + 1)] = a
        rets = []
        ins = {0: [st]}
        self.exec_wto(f, frame, self.prog.wto(f), ins, rets, {})
        if any(v for v in ins.values()):
            raise AnalysisError("blocks left unvisited in " + f["name"])
        self.stack.pop()
        self.callpath.pop()
        self.curblk, self.substep, self.curspan = saved
        out = self.join(rets)
        if out is None:
            return None, None
        rv = out.mem.get(("L", frame, 0))
        if rv is None:
            rt = self.prog.tyname[f["locals"][0]]
            rv = agg("()", 0, []) if rt == "()" else mk("undef", ("ret",), rt)
        rv = simp(rv, out.pc)
        mem = {r: v for r, v in out.mem.items() if not (r[0] in ("L", "T") and r[1] == frame)}
        return St(out.pc, mem), rv

    Error = AnalysisError
    curblk = 0
    unr = ()  # iterations of unrolled loops being executed
    substep = 0
    curspan = ""
    callpath = []

    def exec_wto(self, f, frame, comps, ins, rets, backs):
        for c in comps:
            if isinstance(c, int):
                s = self.join(ins.pop(c, []))
                if s is not None:
                    self.exec_block(f, frame, c, s, ins, rets, backs)
            else:
                self.exec_loop(f, frame, c, ins, rets, backs)

    def exec_loop(self, f, frame, comp, ins, rets, backs):
        head, body = comp
        entry = self.join(ins.pop(head, []))
        if entry is None:
            return
        rets0 = len(rets)
        saved_ins = {k: list(v) for k, v in ins.items()}
        saved_backs = {k: list(v) for k, v in backs.items()}

        def step(H):
            ins.clear()
            ins.update({k: list(v) for k, v in saved_ins.items()})
            del rets[rets0:]
            backs.clear()
            backs.update({k: list(v) for k, v in saved_backs.items()})
            backs[head] = []
            self.exec_block(f, frame, head, H, ins, rets, backs)
            self.exec_wto(f, frame, body, ins, rets, backs)
            return self.join(backs.pop(head))

        n = self.short(entry, {("L", frame, l) for l, x in enumerate(f["locals"]) if self.loopcarried(f, head, body, l)})
        if n is not None:
            kept = (dict(self.events), self.seq, dict(self.loopinfo), self.unr)
            clean = lambda: (ins.clear(), ins.update({k: list(v) for k, v in saved_ins.items()}), rets.__delitem__(slice(rets0, None)),
                             backs.clear(), backs.update({k: list(v) for k, v in saved_backs.items()}))
            H = entry
            for i in range(n + 1):
                self.unr = kept[3] + (((frame, head), i),)
                backs[head] = []
                self.exec_block(f, frame, head, H.copy(), ins, rets, backs)
                self.exec_wto(f, frame, body, ins, rets, backs)
                H = self.join(backs.pop(head))
                if H is None:
                    break
            self.unr = kept[3]
            if H is None:
                return
            self.events, self.seq, self.loopinfo = kept[:3]
            clean()
        self.fixpoint((frame, head) + self.unr, entry, step, f["key"])

    def loopcarried(self, f, head, body, l):
        """is local l read or written inside the loop"""
        memo = self.prog.__dict__.setdefault("_carried", {})
        key = (f["id"], head)
        if key not in memo:
            bl, st = set(), [head, body]
            while st:
                x = st.pop()
                if isinstance(x, int):
                    bl.add(x)
                else:
                    st.extend(x)
            used = set()

            def walk(x):
                if isinstance(x, (list, tuple)):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                        used.add(x[0])
                    for y in x:
                        walk(y)
            for b in bl:
                walk(f["blocks"][b]["s"])
                walk(f["blocks"][b]["t"])
            memo[key] = used
        return l in memo[key]

    MAXUNROLL = 4
    MAXCONST = 32

    def short(self, st, roots):
        """number of iterations of a loop over a sequence of a few known elements, None if there is no such bound"""
        best = None
        for r in roots:
            v = st.mem.get(r)
            if v is None or v.op != "agg":
                continue
            v = simp(v, st.pc)
            n = self.seqlen(v, st)
            if n is not None and (n <= self.MAXUNROLL or n <= self.MAXCONST and self.constant(v, st)):
                best = n if best is None else min(best, n)
        return best

    def constant(self, v, st):
        """is everything in v (behind references too) known when compiling"""
        if v.op == "int":
            return True
        if v.op == "ref":
            try:
                return self.constant(simp(self.load(st, v.args[0]), st.pc), st)
            except AnalysisError:
                return False
        if v.op in ("agg", "vpush", "vnil"):
            return all(self.constant(y, st) for y in v.args if isinstance(y, t.T))
        return False

    def seqlen(self, v, st):
        if v.op != "agg":
            return None
        k = v.args[0]
        if k in ("VecIter", "SliceIter"):
            seq, i = v.args[2], v.args[3]
            if k == "SliceIter":
                if seq.op != "ref":
                    return None
                seq = self.load(st, seq.args[0])
            n = self.vlen(simp(seq, st.pc))
            d = t.sub(n, i)
            return d.args[0] if d.op == "int" else None
        if isinstance(k, str) and k.startswith("It:"):
            return self.seqlen(v.args[2], st) if len(v.args) > 2 and isinstance(v.args[2], t.T) else None
        if isinstance(k, str) and "Range<" in k and "Inclusive" not in k and len(v.args) == 4 and isinstance(v.args[2], t.T):
            d = t.sub(v.args[3], v.args[2]) if t.numeric(v.args[2]) else None
            return d.args[0] if d is not None and d.op == "int" and v.args[2].op == "int" else None
        return None

    def fixpoint(self, lid, entry, step, fname):
        """iterate step(head state) -> back-edge state until the head state is stable; what changes around
        the loop becomes a loop phi"""
        H = entry.copy()
        self.loops.append(lid)
        self.widen_pc = entry.pc
        B = None
        try:
            for it in range(40):
                B = step(H.copy())
                if B is None:
                    break
                nmem = {}
                changed = False
                self.widen_pc = entry.pc
                for r, x in H.mem.items():
                    y = B.mem.get(r)
                    if y is None:
                        if r[0] in ("L", "T"):
                            changed = True  # dead around the back edge
                            continue
                        y = x
                    y = simp(y, B.pc) if y is not x else x
                    z = x if x is y else self.widen(lid, (r,), entry.mem.get(r, x), x, y)
                    nmem[r] = z
                    changed |= z is not x
                for r, y in B.mem.items():
                    if r in H.mem or r[0] in ("L", "T"):
                        continue
                    x = self.initial(r)
                    if x is None or x is y:
                        continue
                    z = self.widen(lid, (r,), x, x, y)
                    nmem[r] = z
                    changed |= z is not x
                if not changed:
                    break
                H = St(entry.pc, nmem)
            else:
                raise AnalysisError("loop does not stabilise in " + fname)
        finally:
            self.loops.pop()
        self.loopinfo[lid] = {"entry": entry, "head": H, "back": B, "fn": fname, "ctx": "/".join(self.callpath)}
        return H

    def widen(self, lid, path, e, x, y):
        """e: entry value, x: current head value, y: back value"""
        if x is y:
            return x
        if x.op == "phi" and x.args[0] == lid:
            return x
        if x.ty == y.ty and x.ty in t.ENUM_VARIANTS and y.op == "ite":
            lv = []
            leaves(y, lv)
            g = [q for q in lv if q.op == "agg"]
            if g and any(q.op != "agg" for q in lv) and len({q.args[1] for q in g}) == 1 and all(
                    q.op == "agg" or bimp(self.widen_pc, t.is_variant(q, g[0].args[1], t.ENUM_VARIANTS[x.ty])) for q in lv):
                y = onleaves(y, lambda q: q if q.op == "agg" else payloads(q, g[0]))
        if x.ty == y.ty and x.ty in t.ENUM_VARIANTS and {x.op, y.op} & {"agg"} and x.op != y.op:
            # the variant is fixed by the path predicate: compare payloads
            g, o = (x, y) if x.op == "agg" else (y, x)
            if o.op != "ite" and bimp(self.widen_pc, t.is_variant(o, g.args[1], t.ENUM_VARIANTS[x.ty])):
                o = payloads(o, g)
                x, y = (g, o) if x.op == "agg" else (o, g)
        if x.op == "agg" and y.op != "agg" and y.ty == x.ty and y.ty in STRUCT_FIELDS and y.op != "ite":
            y = t.expand(y)
        if y.op == "agg" and x.op != "agg" and y.ty == x.ty and x.ty in STRUCT_FIELDS and x.op != "ite" and not (x.op == "phi" and x.args[0] == lid):
            x = t.expand(x)
        if x.op == "agg" and y.op == "agg" and x.args[0] == y.args[0] and x.args[1] == y.args[1] and len(x.args) == len(y.args):
            fs = []
            for i in range(2, len(x.args)):
                fs.append(self.widen(lid, path + (i - 2,), e, x.args[i], y.args[i]))
            return agg(x.args[0], x.args[1], fs, x.ty)
        if x.op == "undef":
            return x if y.op == "undef" else mk("phi", (lid, path), y.ty)
        ty = x.ty
        if ty is None or x.op == "int":
            ty = y.ty if y.ty is not None else ty
        ty = self.declared(path) or ty
        if x.op in ("int", "poly") or y.op in ("int", "poly"):
            ty = ty if ty is not None else "int"
        return mk("phi", (lid, path), ty)

    def declared(self, path):
        """the declared type of (a part of) a local variable"""
        root = path[0]
        if root[0] != "L" or root[1] not in self.framefn:
            return None
        P = self.prog
        f = self.framefn[root[1]]
        if not root[2] < len(f["locals"]):
            return None
        ty = f["locals"][root[2]]
        for i in path[1:]:
            if P.tyname[ty] in t.BIG:
                return None
            td = P.types[ty]
            if td.get("k") == "struct" and i < len(td["v"][0]["f"]):
                ty = td["v"][0]["f"][i][1]
            elif td.get("k") == "tuple" and i < len(td["a"]):
                ty = td["a"][i]
            else:
                return None
        return P.tyname[ty] if P.tyname[ty] in t.INT_TYPES or P.tyname[ty] in t.BIG else None

    def exec_block(self, f, frame, bi, st, ins, rets, backs):
        P = self.prog
        b = f["blocks"][bi]
        self.curblk = bi
        for si, (pl, rv, span) in enumerate(b["s"]):
            self.substep = si
            k = rv[0]
            if span:
                self.curspan = span
            if k == "dead":
                st.mem.pop(("L", frame, pl[0]), None)
                continue
            if k == "setdisc":
                paths, ty = self.place(st, frame, f, pl)
                old = self.load_paths(st, paths)
                if old.op == "agg":
                    self.store(st, paths, agg(old.args[0], rv[1], old.args[2:], old.ty))
                else:
                    self.store(st, paths, agg(P.tyname[ty], rv[1], [], P.tyname[ty]))
                continue
            dty = self.place_type(f, pl)
            v = self.rvalue(st, frame, f, rv, dty)
            if v.ty is None and v.op not in ("int",):
                v.ty = P.tyname[dty]
            if not pl[1]:
                st.mem[("L", frame, pl[0])] = v
            else:
                paths, _ = self.place(st, frame, f, pl)
                self.store(st, paths, v)
        self.substep = 1000
        term = b["t"]
        k = term[0]

        def push(tgt, s):
            if s is None or s.pc == FALSE:
                return
            if tgt in backs:
                backs[tgt].append(s)
            else:
                ins.setdefault(tgt, []).append(s)

        if k in ("goto", "yield"):
            push(term[1], st)
        elif k == "drop":
            push(term[2], st)
        elif k == "return":
            rets.append(st)
        elif k == "switch":
            v = self.operand(st, frame, f, term[1])
            rest = TRUE
            multi = {}
            for val, tgt in term[2]:
                val = int(val)
                c = self.switch_eq(v, val, P.tyname[term[4]])
                c = band(c, rest)
                rest = band(rest, bnot(c))
                multi[tgt] = bor(multi.get(tgt, FALSE), c)
            multi[term[3]] = bor(multi.get(term[3], FALSE), rest)
            for tgt, c in multi.items():
                pc = band(st.pc, c)
                if pc != FALSE:
                    push(tgt, st.copy(pc))
        elif k == "assert":
            v = as_bdd(self.operand(st, frame, f, term[1]))
            c = v if term[2] else bnot(v)
            bad = band(st.pc, bnot(c))
            if bad != FALSE:
                self.event("panic", "assert:" + term[4], [], st.copy(bad), f, term[5])
            st.pc = band(st.pc, c)
            push(term[3], st)
        elif k == "call":
            self.exec_call(f, frame, term, st, push)
        elif k in ("unreachable", "stop"):
            pass
        else:
            raise AnalysisError("terminator " + k)

    def switch_eq(self, v, val, tn):
        if tn == "bool" or v.op == "bool":
            b = as_bdd(v)
            return b if val else bnot(b)
        it = self.ity(tn)
        if it is not None and it.signed and val > it.hi:
            val -= 1 << it.bits
        if tn in ("i128", "isize") and val >= 1 << 63 and it and val > it.hi:
            val -= 1 << it.bits
        if v.op == "ite" or v.op == "disc":
            return self.eqdisc(v, iconst(val))
        return t.eq0(t.sub(v, iconst(val)))

    # ------------------------------------------------------------ calls
    def exec_call(self, f, frame, term, st, push):
        _, callee, argops, dest, target, dty, argtys, span = term
        args = [self.operand(st, frame, f, o) for o in argops]
        self.substep = 1000
        self.curspan = span
        st2, v = self.call(callee, args, argtys, dty, st, span, f)
        if target is None or st2 is None or st2.pc == FALSE:
            if st2 is not None and target is None and st2.pc != FALSE:
                self.event("panic", callee.get("decl", "?"), args, st2, f, span)
            return
        if v is None:
            raise AnalysisError("no value from call at " + span)
        if v.ty is None and v.op not in ("int", "poly", "bool"):
            v.ty = self.prog.tyname[dty]
        v = simp(v, st2.pc)
        if not dest[1]:
            st2.mem[("L", frame, dest[0])] = v
        else:
            paths, _ = self.place(st2, frame, f, dest)
            self.store(st2, paths, v)
        push(target, st2)

    def call(self, callee, args, argtys, dty, st, span, caller):
        P = self.prog
        if "ptr" in callee:
            # call through a function value
            return self.unknown_call("fnptr", args, argtys, dty, st, span, caller)
        inst = callee.get("inst")
        decl = callee["decl"]
        fi = P.fns[inst] if inst is not None else None
        return self.call_fn(fi, decl, callee, args, argtys, dty, st, span, caller)

    def call_fn(self, fi, decl, callee, args, argtys, dty, st, span, caller):
        P = self.prog
        # closures and function items through the Fn* traits
        if decl.startswith("core::ops::function::Fn"):
            r = self.call_closure(args[0], argtys[0], args[1], dty, st, span, caller)
            if r is not None:
                return r
        if self.opaque is not None and fi is not None:
            o = self.opaque(fi)
            if callable(o):
                r = o(self, fi, args, argtys, dty, st, span, caller)
                if r is not NotImplemented:
                    return r
            elif o:
                return st, self.pure(fi["key"] + self.targs(fi), args, dty, st)
        r = self.models.dispatch(self, fi, decl, callee, args, argtys, dty, st, span, caller)
        if r is not NotImplemented:
            return r
        if fi is not None and "blocks" in fi:
            return self.run(fi, args, st)
        return self.unknown_call(fi["name"] if fi else callee["path"], args, argtys, dty, st, span, caller, fi)

    def targs(self, fi):
        return "<" + ",".join(self.prog.tyname[a] if isinstance(a, int) else a for a in fi["args"]) + ">" if fi.get("args") else ""

    def deep(self, st, v, depth=4):
        """replace references by the values they point to (for uninterpreted calls)"""
        if depth == 0:
            return v
        if v.op == "ref":
            x = self.load_limbs(st, v.args[0])
            return mk("at", (self.deep(st, x, depth - 1),))
        if v.op == "agg" and any(x.op in ("ref", "agg", "ite") for x in v.args[2:]):
            return mk("agg", v.args[:2] + tuple(self.deep(st, x, depth) for x in v.args[2:]), v.ty)
        if v.op == "ite" and any(x.op in ("ref", "agg", "ite") for x in v.args[1:]):
            return ite(v.args[0], self.deep(st, v.args[1], depth), self.deep(st, v.args[2], depth))
        return v

    def pure(self, name, args, dty, st):
        tn = self.prog.tyname[dty]
        return mk("fn", (name,) + tuple(self.deep(st, a) for a in args), tn)

    def unknown_call(self, name, args, argtys, dty, st, span, caller, fi=None):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        P = self.prog
        key = fi["key"] + self.targs(fi) if fi else name
        v = self.pure(key, args, dty, st)
        # havoc what a mutable reference gives access to
        for i, (a, ty) in enumerate(zip(args, argtys)):
            td = P.types[ty]
            if td.get("k") in ("ref", "ptr") and td.get("mut"):
                for c, path in self.ref_paths(a, st.pc, P.tyname[td["to"]]):
                    if path[0][0] == "C":
                        continue
                    self.event("havoc", key, [a], st, caller, span)
                    self.store(st, [(c, path)], mk("fn", (key + "#mut%d" % i,) + tuple(self.deep(st, x) for x in args), P.tyname[td["to"]]))
        return st, v

    def tmp(self, st, val):
        """a temporary memory cell owned by the current frame"""
        root = ("T", self.stack[-1], self.curblk, self.substep, len([r for r in st.mem if r[0] == "T" and r[1] == self.stack[-1]]))
        st.mem[root] = val
        return root

    def call_closure(self, fv, fty, argtup, dty, st, span, caller):
        """fv: closure value or reference to it; argtup: the argument tuple (or list of values)"""
        P = self.prog
        td = P.types[fty]
        refd = False
        while td.get("k") == "ref":
            td = P.types[td["to"]]
            refd = True
        if isinstance(argtup, list):
            al = argtup
        else:
            if argtup.op == "agg":
                al = list(argtup.args[2:])
            elif argtup.ty in STRUCT_FIELDS:
                al = [proj(argtup, 0, i, x) for i, x in enumerate(STRUCT_FIELDS[argtup.ty])]
            else:
                return None
        if td.get("k") == "closure":
            fi = P.fns[td["inst"]]
            if "blocks" not in fi:
                return None
            want = P.types[fi["locals"][1]]
            if want.get("k") == "ref":
                if not refd:
                    fv = mk("ref", ((self.tmp(st, fv),),))
                else:
                    # & &closure
                    x = fty
                    while P.types[x].get("k") == "ref" and P.types[P.types[x]["to"]].get("k") == "ref":
                        fv = simp(self.load_paths(st, self.ref_paths(fv, st.pc)), st.pc)
                        x = P.types[x]["to"]
            elif refd:
                fv = self.load_paths(st, self.ref_paths(fv, st.pc))
            return self.run(fi, [fv] + al, st)
        if td.get("k") == "fndef":
            c = td["fn"]
            inst = c.get("inst")
            fi = P.fns[inst] if inst is not None else None
            tys = [fi["locals"][i + 1] for i in range(fi["argc"])] if fi and "blocks" in fi else [dty] * len(al)
            return self.call_fn(fi, c["decl"], c, al, tys, dty, st, span, caller)
        return None

    # ------------------------------------------------------------ entry
    def entry(self, f, args, st=None):
        self.callpath = []
        self.stack = []
        self.loops = []
        st = st or St(TRUE, {})
        return self.run(f, args, st)

    def evlist(self, kind=None):
        ev = sorted(self.events.values(), key=lambda e: e.seq)
        return [e for e in ev if kind is None or e.kind == kind]
