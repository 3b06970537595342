"""Summaries of entry points and the vocabulary the properties are written in."""
from . import terms as t
from .terms import (T, TRUE, FALSE, band, bor, bnot, bimp, bite, mk, iconst, ite, proj, agg, sym)
from .interp import FRAMES, Interp, Prog, St, AnalysisError
from .norm import Rewriter, equiv, TooHard, updates, normpc

MATH = {
    "calculate_sqrt_price", "get_tick_at_sqrt_price", "calculate_amount_delta", "compute_swap_step",
    "calculate_fee_growth_inside", "calculate_max_liquidity_per_tick", "calculate_min_amount_out", "check_tick",
    "check_tick_to_sqrt_price_relationship", "get_delta_x", "get_delta_y", "is_enough_amount_to_change_price",
    "from_fee", "to_fee", "get_max_tick", "get_min_tick", "get_closer_limit", "get_max_chunk",
}
ROOT = "invariant_storage::invariant::INSTANCE"


def math_opaque(fi):
    return fi["item"] in MATH and fi["key"].split("::")[0] in ("math", "contracts")


class V:
    """A term with its type: fields by name."""

    def __init__(self, P, term, ty=None, pc=TRUE):
        self._P, self.t, self._ty = P, term, ty if ty is not None else term.ty

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.fld(n.lstrip("_") if n[1:].isdigit() else n)

    def fld(self, n, variant=0):
        P = self._P
        ti = P.byname.get(self._ty)
        if ti is None:
            raise AnalysisError("no type %r for field %s" % (self._ty, n))
        td = P.types[ti]
        k = td.get("k")
        if k in ("tuple", "closure"):
            i = int(n)
            return V(P, proj(self.t, 0, i, P.tyname[td["a"][i]]), P.tyname[td["a"][i]])
        if k == "struct" or k == "enum":
            for i, (fn_, fty) in enumerate(td["v"][variant]["f"]):
                if fn_ == n:
                    return V(P, proj(self.t, variant, i, P.tyname[fty]), P.tyname[fty])
        raise AnalysisError("type %s has no field %s" % (self._ty, n))

    def var(self, variant, i=0):
        """payload i of an enum variant"""
        P = self._P
        td = P.types[P.byname[self._ty]]
        fty = P.tyname[td["v"][variant]["f"][i][1]]
        return V(P, proj(self.t, variant, i, fty), fty)

    def some(self):
        return t.is_variant(self.t, 1, 2)

    def ok(self):
        return t.is_variant(self.t, 0, 2)

    @property
    def n(self):
        """the integer inside nested single-field newtypes"""
        return unwrap(self._P, self.t, self._ty)

    # maps
    def has(self, k):
        return t.mhas(self.t, k.t if isinstance(k, V) else k)

    def at(self, k):
        P = self._P
        vty = self.valty()
        return V(P, t.msel(self.t, k.t if isinstance(k, V) else k, vty), vty)

    def valty(self):
        P = self._P
        a = P.types[P.byname[self._ty]].get("a")
        return P.tyname[a[1]]

    def keyty(self):
        P = self._P
        a = P.types[P.byname[self._ty]].get("a")
        return P.tyname[a[0]]

    def key(self, *xs):
        """a key of this map built from parts"""
        kt = self.keyty()
        return V(self._P, agg(kt, 0, [x.t if isinstance(x, V) else x for x in xs], kt), kt)

    def eq(self, o):
        return t.eq(self.t, o.t if isinstance(o, V) else o)


def unwrap(P, x, ty):
    while True:
        if ty in t.BIG or ty in t.INT_TYPES or ty is None:
            return x
        ti = P.byname.get(ty)
        td = P.types[ti] if ti is not None else {}
        if td.get("k") == "struct" and len(td["v"][0]["f"]) == 1:
            fty = P.tyname[td["v"][0]["f"][0][1]]
            x = proj(x, 0, 0, fty)
            ty = fty
            continue
        return x


def stored_tick_index(x):
    """representation invariant (its own obligations: property F02): a tick is stored under its own index"""
    if x.op == "proj" and x.args[1] == 0 and x.args[2] == 0 and x.args[0].op == "sel" and (x.args[0].ty or "").endswith("::Tick"):
        k = x.args[0].args[1]
        return proj(k, 0, 1, "i32")
    return None


def mentions(x, names, terms):
    st, seen = [x], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, t.T) or y in seen:
            continue
        seen.add(y)
        if y in terms or y.op == "fn" and isinstance(y.args[0], str) and any(n in y.args[0] for n in names):
            return True
        st.extend(y.args)
    return False


class Exit:
    """State of one entry point at its normal exit (or at an event), normalised under its path predicate."""

    def __init__(self, run, st, ret=None, rty=None):
        P = run.P
        self.run, self.P = run, P
        self.R = run.R
        self.pc = normpc(st.pc, self.R)
        self.st = st
        self.rawret, self.rty = ret, rty
        self._c = {}

    def _lazy(self, k, f):
        if k not in self._c:
            self._c[k] = f()
        return self._c[k]

    @property
    def S1opt(self):
        def go():
            s1 = self.st.mem.get(self.run.root)
            return self.R(self.run.S0opt if s1 is None else s1, self.pc)
        return self._lazy("S1opt", go)

    @property
    def S1(self):
        run = self.run
        return self._lazy("S1", lambda: V(self.P, self.R(proj(self.S1opt, 1, 0, run.invty), self.pc), run.invty))

    @property
    def S0(self):
        """state at the start of this uninterrupted segment of execution"""
        def go():
            run = self.run
            pre = self.st.mem.get(("PRE", run.root))
            return V(self.P, self.R(proj(pre, 1, 0, run.invty), self.pc), run.invty) if pre is not None else run.S0
        return self._lazy("S0", go)

    @property
    def ret(self):
        return self._lazy("ret", lambda: V(self.P, self.R(self.rawret, self.pc), self.rty) if self.rawret is not None else None)

    def focus(self, names=(), terms=()):
        """this exit with every condition forgotten that mentions one of the functions or terms (a weaker path predicate)"""
        self.S1, self.S0, self.ret
        y = Exit(self.run, self.st, self.rawret, self.rty)
        y._c = dict(self._c)
        y.pc = t.bexists(self.pc, lambda at: mentions(at, names, terms))
        return y

    def norm(self, x):
        return self.R(x.t if isinstance(x, V) else x, self.pc)

    def implies(self, c, pc=None):
        pc = self.pc if pc is None else band(self.pc, pc)
        if band(pc, bnot(c)) == FALSE:
            return True
        if band(pc, bnot(self.R.b(c, pc))) == FALSE:
            return True
        return self.same(ite(c, iconst(1), iconst(0)), iconst(1), pc)

    def same(self, a, b, pc=TRUE):
        a = a.t if isinstance(a, V) else a
        b = b.t if isinstance(b, V) else b
        bud = [6000]
        try:
            r = equiv(a, b, band(self.pc, pc), self.R, bud)
        except TooHard:
            r = False
        self.why = bud[1] if len(bud) > 1 else None
        return r

    def explain(self):
        if self.why is None:
            return "undecided"
        a, b, pc = self.why
        return "%s  vs expected  %s  when  %s" % (t.show(self.R(a, pc), 5)[:400], t.show(self.R(b, pc), 5)[:400], t.bshow(pc, 4)[:500])


class Run:
    """One analysed entry point of the program."""

    def __init__(self, P, f, args=None, opaque=math_opaque, st=None, body=None):
        self.P = P
        self.f = f
        self.I = Interp(P, opaque=opaque)
        self.R = Rewriter(interp=self.I, rules=(stored_tick_index,))
        rootinfo = storage_root(P)
        self.root = rootinfo
        self.invty = None
        self.S0opt = None
        if rootinfo is not None:
            opt = rootinfo[2]
            td = P.types[P.byname[opt]]
            self.invty = P.tyname[td["v"][1]["f"][0][1]]
            self.S0opt = self.I.initial(rootinfo)
            self.S0 = V(P, proj(self.S0opt, 1, 0, self.invty), self.invty)
        at = [P.tyname[f["locals"][i + 1]] for i in range(f["argc"])] if "locals" in f else []
        self.args = []
        for i, ty in enumerate(at):
            self.args.append(V(P, sym("a%d" % i, ty), ty) if args is None or args[i] is None else V(P, args[i], ty))
        st = st or St(TRUE, {})
        if rootinfo is not None:
            st.mem[rootinfo] = self.S0opt
            st.mem[("PRE", rootinfo)] = self.S0opt
        if body is not None:
            st, v = body(self.I, st)
            self.rty = None
            self.st, self.exit = st, Exit(self, st, None) if st is not None else None
            return
        st, v = self.I.entry(f, [a.t for a in self.args], st)
        self.rty = P.tyname[f["locals"][0]]
        rt = P.types[f["locals"][0]]
        if rt.get("k") == "coroutine" and st is not None:
            cf = P.fns[rt["inst"]]
            # the coroutine body returns Poll/the output type of the async function
            self.rty = P.tyname[cf["locals"][0]]
            st, v = self.I.run(cf, [v, mk("sym", ("task-context",))][: max(cf["argc"], 1)], st)
        self.st = st
        self.exit = Exit(self, st, v, self.rty) if st is not None else None

    @property
    def caller(self):
        for x in self.P.tyname:
            if x.endswith("::ActorId"):
                return V(self.P, mk("sym", ("msg::source",), x), x)
        raise AnalysisError("no ActorId")

    def call(self, item, *args, opaque=True):
        """the value of a library function on the given arguments (uninterpreted, or inlined if opaque=False)"""
        return fcall(self.P, self.I, item, [a.t if isinstance(a, V) else a for a in args], opaque)

    def events(self, *kinds):
        return [e for e in self.I.evlist() if not kinds or e.kind in kinds]

    def at_event(self, e):
        return Exit(self, St(e.pc, e.mem))

    def state_loops(self):
        """loops that change the stored state: [(id, entry Exit, head Exit, back Exit)], outermost first"""
        out = []
        for lid, li in self.I.loopinfo.items():
            e, h, b = li["entry"], li["head"], li["back"]
            if b is None or e.mem.get(self.root) is h.mem.get(self.root):
                continue
            out.append((lid, Exit(self, e), Exit(self, h), Exit(self, b)))
        return out

    def replies(self):
        """reply hooks this entry registers: [(registration event, Run of the hook on a later, arbitrary state)]"""
        r = getattr(self, "_replies", None)
        if r is None:
            r = []
            for e in self.events("gear"):
                if e.name.split("::")[-1] != "handle_reply":
                    continue
                cl, cty = e.rawargs[-1], e.argtys[-1]
                unit_ty = self.P.byname.get("()")

                def body(I, st, cl=cl, cty=cty):
                    I.stack.append(next(FRAMES))
                    I.curblk = I.substep = 0
                    I.curspan = "reply"
                    x = I.call_closure(cl, cty, [], unit_ty, st, "reply", None)
                    I.stack.pop()
                    if x is None:
                        raise AnalysisError("reply hook is not a closure")
                    return x
                f = {"argc": 0, "key": "reply-hook", "item": "reply-hook"}
                r.append((e, Run(self.P, f, body=body)))
            self._replies = r
        return r

    def commits(self):
        """every point at which what was done becomes permanent: {name: Exit}"""
        r = getattr(self, "_commits", None)
        if r is None:
            r = []
            if self.exit is not None:
                r.append(("return", self.exit))
            n = {}
            for e in self.I.evlist():
                if e.kind in ("await", "leave"):
                    n[e.kind] = n.get(e.kind, 0) + 1
                    r.append(("%s%d" % (e.kind, n[e.kind]), self.at_event(e)))
            self._commits = r
        return r


def find_fn(P, item, crates=("math", "contracts", "decimal", "invariant_vara_wasm"), self_adt=None):
    c = [f for f in P.fns if f.get("item") == item and f["key"].split("::")[0].lstrip("<") in crates and "locals" in f and not f.get("trait")]
    if self_adt:
        c = [f for f in c if f.get("self") is not None and P.types[f["self"]].get("adt", "").endswith(self_adt)]
    if len(c) != 1:
        raise AnalysisError("function %s: %d candidates" % (item, len(c)))
    return c[0]


def fcall(P, I, item, args, opaque=True, st=None):
    f = find_fn(P, item)
    st = st or St(TRUE, {})
    dty = f["locals"][0]
    if opaque:
        return V(P, I.pure(f["key"] + I.targs(f), args, dty, st), P.tyname[dty])
    st, v = I.run(f, args, st)
    return V(P, v, P.tyname[dty])


def storage_root(P):
    """the static cell holding Option<Invariant>"""
    r = getattr(P, "_root", 0)
    if r == 0:
        r = None
        opts = {i: n for i, n in enumerate(P.tyname) if P.types[i].get("k") == "enum" and n.endswith("Option<invariant_storage::Invariant>")}
        found = set()

        def walk(x):
            if isinstance(x, dict):
                for y in x.values():
                    walk(y)
            if isinstance(x, list):
                for y in x:
                    walk(y)
                if len(x) >= 3 and x[0] == "k" and isinstance(x[2], dict) and "static" in x[2]:
                    to = P.types[x[1]].get("to")
                    if to in opts:
                        found.add((x[2]["static"], opts[to]))
        for f in P.fns:
            if "blocks" in f:
                walk(f["blocks"])
        if len(found) == 1:
            n, ty = found.pop()
            r = ("S", n, ty)
        P._root = r
    return r


def services(P):
    """public methods of the service and its program constructors: {item: fn}"""
    out = {}
    for f in P.fns:
        s = f.get("self")
        if f.get("kind") == "item" and s is not None and "blocks" in f and f.get("pub") and not f.get("trait"):
            adt = P.types[s].get("adt", "")
            if adt.endswith("::InvariantService"):
                out[f["item"]] = f
    return out


# ------------------------------------------------------------------ ledger vocabulary
def bal(S, u, tok):
    """a user's balance of a token as recorded in the contract (absent = 0)"""
    b = S.balances
    inner = b.at(u)
    return ite(band(b.has(u), inner.has(tok)), inner.at(tok).n, iconst(0))


def add(*xs):
    r = iconst(0)
    for x in xs:
        r = t.add(r, x.t if isinstance(x, V) else x)
    return r


def when(c, x):
    return ite(c, x, iconst(0))
