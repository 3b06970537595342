"""The TypeScript package: what its bindings send and expect, against the program's own types.

eng/ts.js evaluates every method of the package once over symbolic parameters; the layouts of the program's messages
come from the type-checked program."""
import json
import os
import re
import subprocess

from . import *
from eng import pipeline

BODY = ("this", "_program")


class Package:
    def __init__(self):
        d = os.path.join(pipeline.REPO, "sdk", "src")
        js = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "eng", "ts.js")
        p = subprocess.run(["node", js, d], capture_output=True, text=True, timeout=300)
        if p.returncode:
            raise AnalysisError("sdk/src cannot be read: " + p.stderr.strip()[-300:])
        d = json.loads(p.stdout)
        self.classes, self.functions = d["classes"], d["functions"]


def package(ctx):
    return ctx.memo("sdk/src", Package)


def text(v):
    """a constant string"""
    if v.get("k") == "str":
        return v["v"]
    return None


def obj(v):
    if v.get("k") == "str":
        return v["v"]
    if v.get("k") == "obj":
        return {n: obj(x) for n, x in v["m"].items()}
    if v.get("k") == "arr":
        return [obj(x) for x in v["a"]]
    raise AnalysisError("not a constant: %s" % show(v))


def path(v):
    """a.b.c as a tuple of names, or None"""
    out = []
    while v.get("k") == "mem":
        out.append(v["n"])
        v = v["o"]
    if v.get("k") == "this":
        out.append("this")
    elif v.get("k") in ("glob", "cls"):
        out.append(v["n"])
    elif v.get("k") == "ext":
        out.append(v["n"])
    else:
        out.append(None)
    return tuple(reversed(out))


def show(v, d=6):
    k = v.get("k") if isinstance(v, dict) else None
    if d == 0:
        return "…"
    if k == "par":
        return "$%d" % v["i"]
    if k == "mem":
        return show(v["o"], d - 1) + "." + str(v["n"])
    if k == "str":
        return repr(v["v"])
    if k in ("call", "new"):
        return "%s(%s)" % (show(v["f"], d - 1), ", ".join(show(x, d - 1) for x in v["args"]))
    if k in ("ext", "glob", "cls"):
        return v["n"]
    if k == "this":
        return "this"
    if k == "arr":
        return "[%s]" % ", ".join(show(x, d - 1) for x in v["a"])
    return json.dumps(v)[:80]


# layouts ------------------------------------------------------------------------------------------------------------
def camel(n):
    a = n.split("_")
    return a[0] + "".join(x[:1].upper() + x[1:] for x in a[1:])


def pascal(n):
    return "".join(x[:1].upper() + x[1:] for x in n.split("_"))


def one(fields):
    """a struct of one field is laid out as that field"""
    return fields[0][1] if len(fields) == 1 else None


def layout(P, tid, depth=0):
    """what a value of a type of the program is on the wire"""
    ty = P.types[tid]
    adt, k, name = ty.get("adt"), ty["k"], ty["name"]
    if depth > 20:
        raise AnalysisError("recursive type %s" % name)
    go = lambda x: layout(P, x, depth + 1)
    if k == "prim":
        return name
    if k == "tuple":
        return "null" if not ty["a"] else ("tuple",) + tuple(go(x) for x in ty["a"]) if len(ty["a"]) > 1 else go(ty["a"][0])
    if adt == "gprimitives::ActorId":
        return ("bytes", 32)
    if adt == "primitive_types::U256":
        return "U256"
    if adt == "alloc::vec::Vec":
        return ("vec", go(ty["a"][0]))
    if adt == "core::option::Option":
        return ("option", go(ty["a"][0]))
    if adt == "core::result::Result":
        return ("result", go(ty["a"][0]), go(ty["a"][1]))
    if adt == "alloc::string::String":
        return "string"
    if k == "struct":
        f = [(camel(n), go(x)) for n, x in ty["v"][0]["f"]]
        return "null" if not f else one(f) or ("struct",) + tuple(f)
    if k == "enum":
        out = []
        for i, v in enumerate(ty["v"]):
            if v["d"] != str(i):
                raise AnalysisError("%s::%s has the number %s" % (name, v["n"], v["d"]))
            f = [(camel(n), go(x)) for n, x in v["f"]]
            out.append((v["n"], "null" if not f else one(f) or ("struct",) + tuple(f)))
        return ("enum",) + tuple(out)
    raise AnalysisError("no layout for %s" % name)


PRIMS = {"bool": "bool", "string": "string", "text": "string", "str": "string", "null": "null", "u256": "U256"}
PRIMS.update({"%s%d" % (s, n): "%s%d" % (s, n) for s in "ui" for n in (8, 16, 32, 64, 128)})


def split(s):
    """parts of a list at its top level"""
    out, depth, cur, quoted = [], 0, "", False
    for c in s:
        if c == '"':
            quoted = not quoted
        if not quoted:
            if c in "(<{[":
                depth += 1
            elif c in ")>}]":
                depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def wire(reg, s, depth=0):
    """what a value of a type named in the registry's notation is on the wire"""
    if depth > 30:
        raise AnalysisError("recursive type in the registry")
    go = lambda x: wire(reg, x, depth + 1)
    if isinstance(s, dict):
        if "_enum" in s:
            e = s["_enum"]
            items = [(n, "Null") for n in e] if isinstance(e, list) else list(e.items())
            return ("enum",) + tuple((n, go(x)) for n, x in items)
        f = [(n, go(x)) for n, x in s.items()]
        return "null" if not f else one(f) or ("struct",) + tuple(f)
    s = s.strip()
    if s.startswith("{"):
        return go(json.loads(s))
    if s.startswith("("):
        a = split(s[1:-1])
        return "null" if not a else go(a[0]) if len(a) == 1 else ("tuple",) + tuple(go(x) for x in a)
    m = re.fullmatch(r"\[\s*u8\s*;\s*(\d+)\s*\]", s)
    if m:
        return ("bytes", int(m.group(1)))
    m = re.fullmatch(r"(Vec|Option|Result)\s*<(.*)>", s, re.S)
    if m:
        return (m.group(1).lower(),) + tuple(go(x) for x in split(m.group(2)))
    if s in reg:
        return go(reg[s])
    if s.lower() in PRIMS:
        return PRIMS[s.lower()]
    if s in ("ActorId", "H256"):
        return ("bytes", 32)
    raise AnalysisError("the registry has no type %s" % s)


def swapped(x, y, xs, ys):
    """names that stand at another place on the other side; names known to one side only are its own affair"""
    if x != y and (x in ys or y in xs):
        return "the program has %s where the package has %s" % (x, y)


def differ(a, b, at=""):
    """where two layouts differ"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ("struct", "enum"):
        for x, y in zip(a[1:], b[1:]):
            d = swapped(x[0], y[0], [n for n, _ in a[1:]], [n for n, _ in b[1:]])
            if d:
                return "%s: %s" % (at or "value", d)
            d = differ(x[1], y[1], at + "." + x[0])
            if d:
                return d
        if len(a) == len(b):
            return None
        return "%s: %d parts in the program, %d in the package" % (at or "value", len(a) - 1, len(b) - 1)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            d = differ(x, y, "%s.%d" % (at, i))
            if d:
                return d
        if a[0] != "bytes":
            return None
    return "%s: %s in the program, %s in the package" % (at or "value", str(a)[:80], str(b)[:80])


def registry(ctx):
    c = package(ctx).classes.get("InvariantContract", {}).get("constructor()")
    if not c:
        raise AnalysisError("InvariantContract has no constructor")
    reg = {}
    for x in c["calls"]:
        p = path(x["f"])
        if p[-1] == "register" and p[:2] == ("this", "registry") and x["args"]:
            reg.update(obj(x["args"][-1]) if len(x["args"]) == 1 else {text(x["args"][0]): obj(x["args"][1])})
    if not reg:
        raise AnalysisError("no type is registered")
    return reg


# the program's interface --------------------------------------------------------------------------------------------
def interface(ctx):
    """{route: ([(parameter, type)], result type)} of the service, from the structs its calls are decoded into"""
    P = ctx.P
    out = {}
    for i, ty in enumerate(P.types):
        m = re.fullmatch(r"invariant::invariant_service::__(\w+)Params", ty.get("adt") or "")
        if m:
            out[m.group(1)] = [[(n, x) for n, x in ty["v"][0]["f"]], None]
    for f in P.fns:
        r = pascal(f["item"]) if f["item"] else None
        if r in out and "impl#" in f["key"] and f["key"].startswith("invariant::invariant_service::") and f["argc"]:
            self = P.types[f["locals"][1]]["name"]
            if not re.search(r"\bInvariantService<", self) or "Exposure" in self:
                continue
            ret = f["locals"][0]
            if P.types[ret]["k"] == "coroutine":
                b = [g for g in P.fns if g["key"] == f["key"] + "::{closure#0}"]
                ret = b[0]["locals"][0] if len(b) == 1 else None
            out[r][1] = ret
            ctx.fns.add(f["key"])
            if [x for _, x in out[r][0]] != list(f["locals"][2:f["argc"] + 1]):
                out[r][1] = None
    return out


def bodies(v):
    """every expression below one"""
    if isinstance(v, dict):
        yield v
        for x in v.values():
            yield from bodies(x)
    elif isinstance(v, list):
        for x in v:
            yield from bodies(x)


def request(m):
    """(route, arguments, type of the message, type of the reply) of a service method of the package"""
    sends = [c for c in m["calls"] if path(c["f"])[-1] == "TransactionBuilder" and c.get("new")]
    if sends:
        if len(sends) != 1:
            raise AnalysisError("more than one message")
        a = sends[0]["args"]
        if text(a[2]) != "send_message" or path(a[1])[-1] != "registry" or path(a[6])[-1] != "programId":
            raise AnalysisError("not a message to the program")
        if m["result"] != {"k": "new", "f": sends[0]["f"], "args": a}:
            raise AnalysisError("the message is not what is returned")
        return a[3], a[4], a[5]
    made = [c for c in m["calls"] if path(c["f"])[-1] == "createType"]
    asked = [c for c in m["calls"] if path(c["f"])[-1] == "calculateReply"]
    if len(made) != 2 or len(asked) != 1:
        raise AnalysisError("neither a message nor a query")
    q, r = made
    o = asked[0]["args"][0]
    if o.get("k") != "obj" or path(o["m"].get("destination", {}))[-1] != "programId":
        raise AnalysisError("a query to something else")
    whole = {"k": "call", "f": q["f"], "args": q["args"]}
    if not any(x == whole for x in bodies(o["m"].get("payload"))):
        raise AnalysisError("the query is not what is sent")
    if path(r["args"][1])[-1] != "payload" or not any(x.get("k") == "call" and path(x["f"])[-1] == "calculateReply" for x in bodies(r["args"][1])):
        raise AnalysisError("something else than the reply is decoded")
    got = {"k": "idx", "o": {"k": "call", "f": r["f"], "args": r["args"]}, "i": 2}
    if not any(x == got for x in bodies(m["result"])):
        raise AnalysisError("the decoded reply is not what is returned")
    return q["args"][1], q["args"][0], r["args"][0]


def parts(s, what):
    """the types after the two names every message starts with"""
    s = text(s)
    if not s or not s.strip().startswith("("):
        raise AnalysisError("the type of the %s is not a constant" % what)
    a = split(s.strip()[1:-1])
    if [x.lower() for x in a[:2]] != ["string", "string"]:
        raise AnalysisError("the %s does not start with the names of the service and the call" % what)
    return a[2:]


def spec_bindings(ctx):
    """every call of the service has a binding that names it, encodes its parameters in order and decodes its result"""
    ctx.fns |= {"sdk/src/invariant-contract.ts: Service.%s" % n for n in package(ctx).classes.get("Service", {})}
    P, pk = ctx.P, package(ctx)
    reg = registry(ctx)
    ifc = interface(ctx)
    got, lost = {}, {}
    for n, m in sorted(pk.classes.get("Service", {}).items()):
        if not (n == "constructor()" or n.startswith("subscribeTo")):
            try:
                route = text(request(m)[0]["a"][1])
                if route is not None:
                    got.setdefault(route, []).append((n, m))
            except (AnalysisError, KeyError, IndexError):
                lost.setdefault(pascal(re.sub(r"([A-Z])", r"_\1", n).lower()), []).append((n, m))
    ctx.ob("the service has calls", len(ifc) >= 1, "no call of the service found")
    for route, (ps, ret) in sorted(ifc.items()):
        w = "sdk/src/invariant-contract.ts"

        def whole():
            b = got.get(route) or lost.get(route, [])
            if len(b) != 1:
                raise AnalysisError("%d bindings name it" % len(b))
            return b[0]

        def names():
            n, m = whole()
            a = request(m)[0]
            if a.get("k") != "arr" or [text(x) for x in a["a"][:2]] != ["Service", route]:
                raise AnalysisError("it calls %s" % show(a))
            if n != camel(re.sub(r"(?<=.)([A-Z])", r"_\1", route).lower()):
                raise AnalysisError("the binding is called %s" % n)
            return True
        ctx.ob("%s: is called by its name" % route, names, "", w)

        def params():
            n, m = whole()
            a = request(m)[0]["a"][2:]
            if len(a) != len(ps):
                raise AnalysisError("%d arguments for %d parameters" % (len(a), len(ps)))
            for i, ((nm, _), x) in enumerate(zip(ps, a)):
                if x.get("k") != "par" or x["i"] != i:
                    raise AnalysisError("parameter %s is sent %s" % (nm, show(x)))
                d = swapped(nm, m["params"][i], [n for n, _ in ps], m["params"][:len(ps)])
                if d:
                    raise AnalysisError(d)
            return True
        ctx.ob("%s: sends its parameters in order" % route, params, "", w)

        def encoded():
            n, m = whole()
            a = parts(request(m)[1], "message")
            if len(a) != len(ps):
                raise AnalysisError("%d types for %d parameters" % (len(a), len(ps)))
            for (nm, ty), s in zip(ps, a):
                d = differ(layout(P, ty), wire(reg, s))
                if d:
                    raise AnalysisError("parameter %s: %s" % (nm, d))
            return True
        ctx.ob("%s: encodes its parameters as the program decodes them" % route, encoded, "", w)

        def decoded():
            n, m = whole()
            if ret is None:
                raise AnalysisError("the result of the call is unknown")
            s = request(m)[2]
            if (text(s) or "").lower().startswith("(string, string,"):
                s = {"k": "str", "v": "(%s)" % ", ".join(parts(s, "reply"))}
            if text(s) is None:
                raise AnalysisError("the type of the reply is not a constant")
            d = differ(layout(P, ret), wire(reg, text(s)))
            if d:
                raise AnalysisError("result: " + d)
            return True
        ctx.ob("%s: decodes the result the program encodes" % route, decoded, "", w)
    ctx.ob("every binding is of a call the service has", set(got) <= set(ifc), "no such call: %s" % sorted(set(got) - set(ifc)))


def holding(c, pol):
    """the equalities that hold when c is pol"""
    if c.get("k") != "op":
        return
    o, a = c["o"], c["a"]
    if o == "!":
        yield from holding(a[0], not pol)
    elif (o, pol) in (("&&", True), ("||", False)):
        for x in a:
            yield from holding(x, pol)
    elif (o, pol) in (("===", True), ("==", True), ("!==", False), ("!=", False)):
        yield a


def names_event(conds):
    for c, pol in conds:
        for a in holding(c, pol):
            if any(y.get("k") == "call" and path(y["f"])[-1] == "getFnNamePrefix" for y in bodies(a)):
                yield from (text(x) for x in a if text(x) is not None)


def spec_event_bindings(ctx):
    """every event has a subscription that picks it by name and decodes it as the program encodes it"""
    P, pk = ctx.P, package(ctx)
    reg = registry(ctx)
    ev = [i for i, ty in enumerate(P.types) if ty.get("adt") == "io::InvariantEvent"]
    want = dict(layout(P, ev[0])[1:]) if ev else {}
    ctx.ob("there are events", len(want) >= 1, "no event found")
    subs = {}
    for n, m in pk.classes.get("Service", {}).items():
        for c in m["calls"] if n.startswith("subscribeTo") else []:
            if c["f"].get("k") == "par":
                for e in set(names_event(c["conds"])):
                    subs.setdefault(e, []).append((n, c))
    for e, lay in sorted(want.items()):
        def one_(e=e, lay=lay):
            s = subs.get(e, [])
            if len(s) != 1:
                raise AnalysisError("%d subscriptions for it" % len(s))
            n, c = s[0]
            made = [x for x in bodies(c["args"]) if x.get("k") == "idx" and x.get("i") == 2 and x["o"].get("k") == "call" and path(x["o"]["f"])[-1] == "createType"]
            if not made:
                raise AnalysisError("what is handed on is not the decoded event")
            a = made[0]["o"]["args"]
            if path(a[1])[-1] != "payload":
                raise AnalysisError("something else than the message is decoded")
            t_ = parts(a[0], "event")
            if len(t_) != 1:
                raise AnalysisError("%d parts in the event" % len(t_))
            d = differ(lay, wire(reg, t_[0]))
            if d:
                raise AnalysisError(d)
            return True
        ctx.ob("%s: is decoded as the program encodes it" % e, one_, "", "sdk/src/invariant-contract.ts")
    ctx.ob("every subscription is to an event the program sends", set(subs) <= set(want), "no such event: %s" % sorted(set(subs) - set(want)))


def spec_listener(ctx):
    """the client's listener decodes each event as the program encodes it and leaves out none"""
    P, pk = ctx.P, package(ctx)
    reg = registry(ctx)
    ev = [i for i, ty in enumerate(P.types) if ty.get("adt") == "io::InvariantEvent"]
    want = dict(layout(P, ev[0])[1:]) if ev else {}
    m = pk.classes.get("Invariant", {}).get("listen")
    for e, lay in sorted(want.items()):
        def go(e=e, lay=lay):
            if not m:
                raise AnalysisError("the client has no listener")
            made = [c for c in m["calls"] if path(c["f"])[-1] == "createType"]
            if not made:
                raise AnalysisError("it decodes nothing")
            for c in made:
                t_ = text(subst(c["args"][0], {"getFnNamePrefix": {"k": "str", "v": e}}))
                if t_ is None:
                    raise AnalysisError("the type it decodes is not a constant")
                a = parts({"k": "str", "v": t_}, "event")
                d = differ(lay, wire(reg, a[0])) if len(a) == 1 else "%d parts" % len(a)
                if d:
                    raise AnalysisError(d)
            return True
        ctx.ob("%s: the listener decodes it as the program encodes it" % e, go, "", "sdk/src/utils.ts")
    if m:
        names = [set(obj(x["args"][0]).values()) for c in m["calls"] for x in bodies(c["f"])
                 if path(c["f"])[-1] == "includes" and x.get("k") == "call" and path(x["f"])[-1] == "values" and x["args"][0].get("k") == "obj"]
        for n in names:
            ctx.ob("the listener knows every event", n == set(want), "it knows %s" % sorted(n), "sdk/src/schema.ts")


def spec_deploy_binding(ctx):
    P, pk = ctx.P, package(ctx)
    reg = registry(ctx)
    cfg = [i for i, ty in enumerate(P.types) if (ty.get("adt") or "").endswith("::InvariantConfig") and ty["k"] == "struct"]
    for n in ("newCtorFromCode", "newCtorFromCodeId"):
        def go(n=n):
            m = pk.classes["InvariantContract"][n]
            c = [c for c in m["calls"] if path(c["f"])[-1] == "TransactionBuilder"]
            if len(c) != 1:
                raise AnalysisError("%d deployments" % len(c))
            a = c[0]["args"]
            if text(a[3]["a"][0]) != "New" or a[3]["a"][1].get("k") != "par" or a[3]["a"][1]["i"] != 1 or len(a[3]["a"]) != 2:
                raise AnalysisError("it sends %s" % show(a[3]))
            t_ = split(text(a[4]).strip()[1:-1])
            if len(t_) != 2 or len(cfg) != 1:
                raise AnalysisError("the type of the message is %s" % text(a[4]))
            d = differ(layout(P, cfg[0]), wire(reg, t_[1]))
            if d:
                raise AnalysisError(d)
            return True
        ctx.ob("%s: encodes the configuration as the program decodes it" % n, go, "", "sdk/src/invariant-contract.ts")


CODEC = re.compile(r"#\[\s*codec\s*\(\s*(skip|compact|index|encoded_as)|impl\b[^{;]*\b(Encode|Decode)\s+for\b")


def spec_codec(ctx):
    """no type of the program changes how it is laid out"""
    for d in ("src", "io", "calc"):
        for base, _, fs in os.walk(os.path.join(pipeline.REPO, d)):
            for f in sorted(fs):
                if f.endswith(".rs") and "/target/" not in base and "/tests" not in base:
                    p = os.path.join(base, f)
                    m = CODEC.search(re.sub(r"//[^\n]*", "", open(p, errors="replace").read()))
                    if m:
                        ctx.ob("%s: derived layouts" % os.path.relpath(p, pipeline.REPO), False, "a layout of its own: %s" % m.group(0), os.path.relpath(p, pipeline.REPO))
    ctx.ob("layouts are derived from the declarations", True)


def main_bindings(ctx):
    for g in (spec_codec, spec_deploy_binding, spec_bindings, spec_event_bindings):
        g(ctx)


# the client and the helpers ----------------------------------------------------------------------------------------
TRUE_, FALSE_ = {"k": "bool", "v": True}, {"k": "bool", "v": False}


def subst(v, m):
    """v with parameters (by place) and results of functions (by name) replaced, conditions that become known decided"""
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    if not isinstance(v, dict):
        return v
    if v.get("k") == "par":
        return m.get(v["i"], v)
    if v.get("k") == "call" and path(v["f"])[-1] in m:
        return m[path(v["f"])[-1]]
    if v.get("k") == "choice":
        c = subst(v["c"], m)
        if c.get("k") == "bool":
            return subst(v["a"] if c["v"] else v["b"], m)
        return {"k": "choice", "c": c, "a": subst(v["a"], m), "b": subst(v["b"], m)}
    out = {n: subst(x, m) for n, x in v.items()}
    if out.get("k") == "op":
        o, a = out["o"], out["a"]
        if o == "!" and a[0].get("k") == "bool":
            return {"k": "bool", "v": not a[0]["v"]}
        if o in ("===", "==", "!==", "!=") and all(text(x) is not None for x in a):
            return {"k": "bool", "v": (text(a[0]) == text(a[1])) == (o[0] == "=")}
    if out.get("k") == "idx" and out["o"].get("k") == "obj" and isinstance(out["i"], dict) and text(out["i"]) in out["o"]["m"]:
        return out["o"]["m"][text(out["i"])]
    return out


def bare(v):
    """a value without the conversions between numbers and texts"""
    while v.get("k") == "call":
        f = v["f"]
        if f.get("k") == "glob" and f["n"] in ("Number", "BigInt", "String") and len(v["args"]) == 1:
            v = v["args"][0]
        elif f.get("k") == "mem" and f["n"] in ("toString", "toBigInt") and not v["args"]:
            v = f["o"]
        else:
            break
    return v


def anon(v):
    """parameters by place only"""
    if isinstance(v, list):
        return [anon(x) for x in v]
    if isinstance(v, dict):
        if v.get("k") == "op" and v["o"] == "+" and v["a"][1].get("k") == "op" and v["a"][1]["o"] == "neg":
            v = {"k": "op", "o": "-", "a": [v["a"][0], v["a"][1]["a"][0]]}
        if v.get("k") == "op" and v["o"] in ("+", "-") and len(v["a"]) == 2 and v["a"][1].get("k") == "num" and v["a"][1]["v"].startswith("-"):
            v = {"k": "op", "o": "+-"[v["o"] == "+"], "a": [v["a"][0], {"k": "num", "v": v["a"][1]["v"][1:]}]}
        return {"k": "par", "i": v["i"]} if v.get("k") == "par" else {n: anon(x) for n, x in v.items() if n not in ("line", "file")}
    return v


def eq(a, b):
    return anon(a) == anon(b)


def par(i, *names):
    v = {"k": "par", "i": i}
    for n in names:
        v = {"k": "mem", "o": v, "n": n}
    return v


def calls_of(m, service):
    return [c for c in m["calls"] if path(c["f"])[-2:] == ("service", service) and path(c["f"])[0] == "this"]


QUERIES = {"feeTierExists": 1, "getFeeTiers": 0, "getPool": 3, "getPoolKeys": 2, "getAllPoolsForPair": 2, "getPosition": 2, "getPositionWithAssociates": 2,
           "getPositions": 3, "getProtocolFee": 0, "getTick": 2, "getTickmap": 1, "getLiquidityTicks": 2, "getLiquidityTicksAmount": 1,
           "isTickInitialized": 2, "getUserBalances": 1, "getUserPositionAmount": 1, "getPositionTicks": 2}
CALLS = {"changeProtocolFee": 1, "addFeeTier": 1, "changeFeeReceiver": 2, "claimFee": 1, "depositSingleToken": 2, "depositTokenPair": 2, "removeFeeTier": 1,
         "removePosition": 1, "transferPosition": 2, "swap": 5, "swapRoute": 4, "withdrawProtocolFee": 1, "withdrawSingleToken": 2, "withdrawVara": 1, "withdrawTokenPair": 2}


def helper(pk, name):
    for fs in pk.functions.values():
        if name in fs:
            return fs[name]
    raise AnalysisError("the package has no %s" % name)


def spec_client(ctx):
    """the client hands what it is given to the call of the same name, each in its place"""
    pk = package(ctx)
    ctx.fns |= {"sdk/src/invariant.ts: Invariant.%s" % n for n in pk.classes.get("Invariant", {})}
    I = pk.classes.get("Invariant", {})
    w = "sdk/src/invariant.ts"

    def at(name, service, want, same=lambda i, a, b: eq(bare(a), b)):
        def go():
            if name not in I:
                raise AnalysisError("the client has no %s" % name)
            cs = calls_of(I[name], service)
            if not cs:
                raise AnalysisError("it does not call %s" % service)
            for c in cs:
                if len(c["args"]) < len(want):
                    raise AnalysisError("%d arguments" % len(c["args"]))
                for a in c["args"][len(want):]:
                    if any(x.get("k") == "par" for x in bodies(a)):
                        raise AnalysisError("%s takes no %s" % (service, show(a)))
                for i, (a, b) in enumerate(zip(c["args"], want)):
                    if not same(i, a, b):
                        raise AnalysisError("argument %d of %s is %s instead of %s" % (i, service, show(a), show(b)))
            return True
        ctx.ob("%s: passes on what it is given" % name, go, "", w)
    for n, k in sorted(QUERIES.items()):
        at(n, n, [par(i) for i in range(k)])
    at("_getAllPositions", "getAllPositions", [par(0)])
    for n, k in sorted(CALLS.items()):
        for name, s in ((n, 1), (n + "Tx", 0)):
            at(name, n, [par(i + s) for i in range(k)])

    def quote_limit(s):
        lim = lambda f, r: anon(subst(helper(pk, f)["result"], {0: par(s, "feeTier", "tickSpacing")}))

        def same(i, a, b):
            if i < 4:
                return eq(bare(a), b)
            return all(eq(bare(subst(a, {1 + s: v})), bare(lim(f, s))) for v, f in ((TRUE_, "getMinSqrtPrice"), (FALSE_, "getMaxSqrtPrice")))
        return same
    at("quote", "quote", [par(i) for i in range(4)] + [par(0)], quote_limit(0))
    for name, s in (("createPool", 1), ("createPoolTx", 0)):
        k = par(s)

        def pool(i, a, b, s=s):
            if i < 4:
                return eq(bare(a), b)
            return eq(bare(a), bare(subst(helper(pk, "calculateTick")["result"], {0: par(s + 1), 1: par(s, "feeTier", "tickSpacing")})))
        at(name, "createPool", [par(s, "tokenX"), par(s, "tokenY"), par(s, "feeTier"), par(s + 1), par(s + 1)], pool)
    for name, s in (("createPosition", 1), ("createPositionTx", 0)):
        def position(i, a, b, s=s):
            if i < 4:
                return eq(bare(a), b)
            return eq(a, subst(helper(pk, "calculateSqrtPriceAfterSlippage")["result"], {0: par(s + 4), 1: par(s + 5), 2: TRUE_ if i == 5 else FALSE_}))
        at(name, "createPosition", [par(s + i) for i in range(4)] + [par(s + 4), par(s + 4)], position)
    for name, s in (("swapWithSlippage", 1), ("swapWithSlippageTx", 0)):
        def swap(i, a, b, s=s):
            if i < 4:
                return eq(bare(a), b)
            R = lambda up: subst(helper(pk, "calculateSqrtPriceAfterSlippage")["result"], {0: par(s + 4), 1: par(s + 5), 2: up})
            one_ = {"k": "num", "v": "1"}
            return all(eq(subst(a, {s + 1: d}), {"k": "op", "o": o, "a": [R(u), one_]}) for d, u, o in ((TRUE_, FALSE_, "-"), (FALSE_, TRUE_, "+")))
        at(name, "swap", [par(s + i) for i in range(4)] + [par(s + 4)], swap)
    for name, s in (("depositVara", 1), ("depositVaraTx", 0)):
        at(name, "depositVara", [])

        def value(name=name, s=s):
            v = [c for c in I[name]["calls"] if path(c["f"])[-1] == "withValue"]
            return len(v) == 1 and eq(bare(v[0]["args"][0]), par(s)) or False
        ctx.ob("%s: sends the amount it is given" % name, value, "the value sent is something else", w)


WASM = ["newFeeTier", "newPoolKey", "calculateTick", "isTokenX", "getMinSqrtPrice", "getMaxSqrtPrice", "getMaxChunk", "getMaxTick", "getMinTick", "toFeeGrowth",
        "toLiquidity", "toFixedPoint", "toPercentage", "toPrice", "toSecondsPerLiquidity", "toSqrtPrice", "toTokenAmount", "positionToTick", "calculateSqrtPrice"]
ORDER = {
    "calculateFee": ("calculate_fee", [
        ("lower_tick_index", par(2, "index")), ("lower_tick_fee_growth_outside_x", par(2, "feeGrowthOutsideX")), ("lower_tick_fee_growth_outside_y", par(2, "feeGrowthOutsideY")),
        ("upper_tick_index", par(3, "index")), ("upper_tick_fee_growth_outside_x", par(3, "feeGrowthOutsideX")), ("upper_tick_fee_growth_outside_y", par(3, "feeGrowthOutsideY")),
        ("pool_current_tick_index", par(0, "currentTickIndex")), ("pool_fee_growth_global_x", par(0, "feeGrowthGlobalX")), ("pool_fee_growth_global_y", par(0, "feeGrowthGlobalY")),
        ("position_fee_growth_inside_x", par(1, "feeGrowthInsideX")), ("position_fee_growth_inside_y", par(1, "feeGrowthInsideY")), ("position_liquidity", par(1, "liquidity"))]),
    "calculateAmountDelta": ("calculate_amount_delta", [("current_tick_index", par(0)), ("current_sqrt_price", par(1)), ("liquidity_delta", par(2)), ("liquidity_sign", par(3)), ("upper_tick", par(4)), ("lower_tick", par(5))]),
    "calculateTokenAmounts": ("calculate_amount_delta", [("current_tick_index", par(0, "currentTickIndex")), ("current_sqrt_price", par(0, "sqrtPrice")), ("liquidity_delta", par(1, "liquidity")), ("liquidity_sign", FALSE_), ("upper_tick", par(1, "upperTickIndex")), ("lower_tick", par(1, "lowerTickIndex"))]),
    "_calculateTokenAmounts": ("calculate_amount_delta", [("current_tick_index", par(0, "currentTickIndex")), ("current_sqrt_price", par(0, "sqrtPrice")), ("liquidity_delta", par(1, "liquidity")), ("liquidity_sign", par(2)), ("upper_tick", par(1, "upperTickIndex")), ("lower_tick", par(1, "lowerTickIndex"))]),
    "getLiquidityByX": ("get_liquidity_by_x", [("x", par(0)), ("lower_tick", par(1)), ("upper_tick", par(2)), ("current_sqrt_price", par(3)), ("rounding_up", par(4))]),
    "getLiquidityByY": ("get_liquidity_by_y", [("y", par(0)), ("lower_tick", par(1)), ("upper_tick", par(2)), ("current_sqrt_price", par(3)), ("rounding_up", par(4))]),
    "simulateInvariantSwap": ("simulate_invariant_swap", [("tickmap", par(0)), ("fee_tier", par(1)), ("pool", par(2)), ("ticks", par(3)), ("x_to_y", par(4)), ("amount", par(5)), ("by_amount_in", par(6)), ("sqrt_price_limit", par(7))]),
}


def made_from(v, e):
    """v is e, or e encoded: a copy of it whose replaced fields are made from the fields of that name"""
    v = bare(v)
    if eq(v, e):
        return True
    if e.get("k") != "par" or {x["i"] for x in bodies(v) if x.get("k") == "par"} != {e["i"]}:
        return False
    if v.get("k") == "map":
        return eq(bare(v["o"]), e)
    while v.get("k") == "set":
        x = bare(v["v"]) if isinstance(v["v"], dict) else {}
        if v["n"] != "?" and not eq(x, {"k": "mem", "o": e, "n": v["n"]}):
            return False
        v = v["o"]
    return True


def spec_helpers(ctx):
    """the helpers hand what they are given to the compiled mathematics, each in its place"""
    pk = package(ctx)
    w = "sdk/src/utils.ts"

    ctx.fns |= {"sdk/src/utils.ts: %s" % n for n in pk.functions.get("utils.ts", {})}

    def asked(n, wasm):
        m = helper(pk, n)
        cs = [c for c in m["calls"] if c["f"].get("k") == "ext" and c["f"]["n"] == wasm and "wasm" in c["f"]["m"]]
        if not cs:
            raise AnalysisError("%s does not call %s" % (n, wasm))
        return m, cs
    for n in WASM:
        def go(n=n):
            m, cs = asked(n, "_" + n)
            for c in cs:
                for i, a in enumerate(c["args"]):
                    if not eq(bare(a), par(i)):
                        raise AnalysisError("argument %d is %s" % (i, show(a)))
            return True
        ctx.ob("%s: passes on what it is given" % n, go, "", w)
    for n, (item, want) in sorted(ORDER.items()):
        js = "_" + camel(item)

        def go(n=n, js=js, want=want):
            m, cs = asked(n, js)
            for c in cs:
                if len(c["args"]) != len(want):
                    raise AnalysisError("%d arguments" % len(c["args"]))
                for (nm, e), a in zip(want, c["args"]):
                    if not made_from(a, e):
                        raise AnalysisError("%s is given %s" % (nm, show(a)))
            return True
        ctx.ob("%s: passes on what it is given" % n, go, "", w)

        def taken(item=item, want=want):
            fs = [f for f in ctx.W.fns if f["item"] == item and "::{" not in f["key"]]
            fs = [f for f in fs if f["argc"] == len(want)]
            if len(fs) != 1:
                raise AnalysisError("%d functions" % len(fs))
            names = {v[1][0]: v[0] for v in fs[0]["vars"] if not v[1][1] and v[1][0] <= len(want)}
            got = [names.get(i + 1, "?") for i in range(len(want))]
            for x, (y, _) in zip(got, want):
                d = swapped(x, y, got, [q for q, _ in want])
                if d:
                    raise AnalysisError(d)
            return True
        ctx.ob("%s: the mathematics takes them in that order" % n, taken, "", "sdk/src/wasm")

    def slipped():
        m, cs = asked("calculateTokenAmountsWithSlippage", "_calculateAmountDelta")
        R = lambda up: subst(helper(pk, "calculateSqrtPriceAfterSlippage")["result"], {0: par(1), 1: par(5), 2: up})
        tick = subst(helper(pk, "calculateTick")["result"], {0: par(1), 1: par(0)})
        seen = set()
        for c in cs:
            a = c["args"]
            for i, e in ((0, tick), (2, par(2)), (3, par(6)), (4, par(4)), (5, par(3))):
                if not eq(bare(a[i]), bare(e)):
                    raise AnalysisError("argument %d is %s" % (i, show(a[i])))
            for up in (TRUE_, FALSE_):
                if eq(a[1], R(up)):
                    seen.add(up["v"])
                    break
            else:
                raise AnalysisError("the price is %s" % show(a[1]))
        return seen == {True, False}
    ctx.ob("calculateTokenAmountsWithSlippage: asks for the amounts at both ends of the tolerated prices", slipped, "one end is not asked for", w)

    names = {n: "get" + pascal(n.lower()) for n in pk.functions.get("consts.ts", {}) if n.endswith(("_DENOMINATOR", "_SCALE"))}
    names.update({"MAX_SQRT_PRICE": "getGlobalMaxSqrtPrice", "MIN_SQRT_PRICE": "getGlobalMinSqrtPrice", "MAX_SWAP_STEPS": "getMaxSwapStep", "SEARCH_RANGE": "getTickSearchRange", "CHUNK_SIZE": "getChunkSize",
                  "LIQUIDITY_TICKS_LIMIT": "getLiquidityTickLimit", "MAX_POOL_PAIRS_RETURNED": "getMaxPoolPairsReturned", "MAX_POOL_KEYS_RETURNED": "getMaxPoolKeysReturned",
                  "POSITIONS_ENTRIES_LIMIT": "getPositionEntriesLimit"})
    for n, g in sorted(names.items()):
        def const(n=n, g=g):
            v = pk.functions["consts.ts"].get(n, {}).get("result")
            if not v:
                raise AnalysisError("no such constant")
            while v.get("k") == "const":
                v = v["v"]
            v = bare(v)
            if v.get("k") != "call" or path(v["f"])[-1] != g or v["args"]:
                raise AnalysisError("it is %s" % show(v))
            return True
        ctx.ob("%s: is the mathematics' own" % n, const, "", "sdk/src/consts.ts")


# what the client makes of the answers --------------------------------------------------------------------------------
WIDE = ("u64", "i64", "u128", "i128", "U256")
NARROW = ("u8", "i8", "u16", "i16", "u32", "i32")


def shape(l):
    """the JSON the registry makes of a value, as eng/tsshape.js takes it"""
    if l == "null":
        return None
    if l in WIDE + NARROW + ("bool", "string"):
        return {"t": "wide" if l in WIDE else "number" if l in NARROW else {"bool": "boolean"}.get(l, l)}
    if l[0] == "bytes":
        return {"t": "bytes"}
    if l[0] == "vec":
        return {"list": shape(l[1])}
    if l[0] == "option":
        return shape(l[1])
    if l[0] == "tuple":
        return {"tuple": [shape(x) for x in l[1:]]}
    if l[0] == "struct":
        return {"obj": {n: shape(x) for n, x in l[1:]}}
    if l[0] == "enum" and all(x == "null" for _, x in l[1:]):
        return {"t": "enum"}
    raise AnalysisError("no JSON for %s" % str(l)[:60])


def carried(l, at=""):
    """that value with every number as a bigint, as eng/tsshape.js gives it back"""
    if l == "null":
        return {"val": None}
    if isinstance(l, str):
        return {"big" if l in WIDE + NARROW else "raw": at}
    if l[0] == "vec":
        return {"list": carried(l[1], at + "[]")}
    if l[0] == "option":
        return carried(l[1], at)
    if l[0] == "tuple":
        return {"tuple": [carried(x, "%s.%d" % (at, i)) for i, x in enumerate(l[1:])]}
    if l[0] == "struct":
        return {"obj": {n: carried(x, at + "." + n) for n, x in l[1:]}}
    return {"raw": at}


def unlike(got, want, at="the answer"):
    """where what is handed back differs from what was answered"""
    if got == want or want == {"val": None} and got == {"undef": True}:
        return None
    for k, kids in (("obj", dict), ("tuple", list)):
        if k in got and k in want:
            a, b = got[k], want[k]
            if kids is list:
                a, b = dict(enumerate(a)), dict(enumerate(b))
            for n in list(b) + [n for n in a if n not in b]:
                if n not in a or n not in b:
                    return "%s.%s is %s" % (at, n, "missing" if n not in a else "not in the answer")
                d = unlike(a[n], b[n], "%s.%s" % (at, n))
                if d:
                    return d
            return None
    if "list" in got and "list" in want:
        for f in set(got) | set(want):
            if f == "sorted" and f in got and f in want:
                d = ascending(got[f], want[f])
                if d:
                    return "%s: %s" % (at, d)
            elif f != "list" and got.get(f) != want.get(f):
                return "%s: %s is %s instead of %s" % (at, f, got.get(f), want.get(f))
        return unlike(got["list"], want["list"], at + "[]")
    if "map" in got and "map" in want:
        return unlike(got["map"], want["map"], at)
    say = lambda v: "%s unconverted" % v["raw"] if "raw" in v else "%s as a bigint" % v["big"] if "big" in v else "a " + next(iter(v)) if v else "?"
    return "%s is %s instead of %s" % (at, say(got), say(want))


def ascending(paths, by):
    """what is wrong with a comparator that is to sort by that scalar"""
    n = {"A|" + by: "x", "B|" + by: "y"}

    def named(v):
        if isinstance(v, list):
            return [named(z) for z in v]
        if isinstance(v, dict):
            return {"big": n[v["raw"]]} if v.get("raw") in n else {k: n.get(z, z) if k == "big" else named(z) for k, z in v.items()}
        return v
    for sign in (1, -1):
        live = [q for q in paths if all(compared(named(c), sign) == h for c, h in q["conds"])]
        if not live:
            return "two elements are not ordered"
        for q in live:
            d = poly(named(q["r"]))
            if set(d) <= {()}:
                s = d.get((), 0)
            elif d == total(at_("x"), at_("y"), -1):
                s = sign
            elif d == total(at_("y"), at_("x"), -1):
                s = -sign
            else:
                return "sorted by something else"
            if s * sign <= 0:
                return "not sorted by %s" % by
    return None


def asked(ctx, qs):
    """what the package makes of each, with a wide number as JSON's number and as its text"""
    d = os.path.join(pipeline.REPO, "sdk", "src")
    js = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "eng", "tsshape.js")
    both = [dict(q, wide=w, stubs={"sqrt": True}) for q in qs for w in ("number", "string")]
    p = subprocess.run(["node", js, d], input=json.dumps(both), capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise AnalysisError("sdk/src cannot be interpreted: " + p.stderr.strip()[-300:])
    r = json.loads(p.stdout)
    return [r[2 * i] + r[2 * i + 1] for i in range(len(qs))]


def spec_answers(ctx):
    """the client hands back what the exchange answered, every number as a bigint"""
    pk, reg = package(ctx), registry(ctx)
    w = "sdk/src/invariant.ts"
    replies, bad = {}, {}
    for n, m in pk.classes.get("Service", {}).items():
        if n == "constructor()" or n.startswith("subscribeTo"):
            continue
        try:
            s = request(m)[2]
        except AnalysisError as e:
            bad[n] = str(e)
            continue
        if (text(s) or "").lower().startswith("(string, string,"):
            s = {"k": "str", "v": "(%s)" % ", ".join(parts(s, "reply"))}
        if text(s) is None:
            bad[n] = "the type of the reply is not a constant"
            continue
        query = not any(path(c["f"])[-1] == "TransactionBuilder" for c in m["calls"])
        replies[n] = ("query" if query else "call", wire(reg, text(s)))
    obs, qs = [], []

    def top(kind, l):
        # the bindings give a number that is the whole answer as a number, or as a bigint where it may be wide
        return {"big": True} if l in WIDE else shape(l)

    def add(method, service, want=None, send=False, sort=None):
        if service not in replies:
            obs.append((method, None, bad.get(service, "the package has no binding of it"), None))
            return
        kind, l = replies[service]
        ok = l[1] if l[0] == "result" else l
        at = ".ok" if l[0] == "result" else ""
        s = {"obj": {"ok": shape(ok)}} if at else top(kind, l)
        obs.append((method, (want or carried)(ok, at), None, len(qs)))
        qs.append({"cls": "Invariant", "method": method, "send": send, "replies": {service: {"kind": kind, "shape": s}}})
        if at:
            obs.append((method, "refused", None, len(qs)))
            qs.append({"cls": "Invariant", "method": method, "send": send, "replies": {service: {"kind": kind, "shape": {"obj": {"err": shape(l[2])}}}}})

    def positions(l, at):
        g, n = l[1], l[2]
        one_ = g[1][2][1]
        p = at + ".0[]"
        return {"tuple": [{"list": {"tuple": [carried(one_[1], p + ".1[].0"), carried(g[1][1], p + ".0")]}, "sorted": p + ".1[].1"}, carried(n, at + ".1")]}
    for n in sorted(QUERIES):
        add(n, n, {"getPositions": positions, "getTickmap": lambda l, at: {"obj": {"bitmap": {"map": carried(l, at)}}},
                   "getUserBalances": lambda l, at: {"map": carried(l, at)}}.get(n))
    add("_getAllPositions", "getAllPositions")
    add("quote", "quote")
    for n in sorted(CALLS) + ["createPool", "createPosition", "depositVara"]:
        add(n, n)
        add(n + "Tx", n, send=True)
    add("swapWithSlippage", "swap")
    add("swapWithSlippageTx", "swap", send=True)
    P = ctx.P
    io = [i for i, ty in enumerate(P.types) if ty.get("adt") == "io::InvariantEvent"]
    for e, l in sorted(layout(P, io[0])[1:] if io else []):
        for off in (None, "off"):
            obs.append((e, {"tuple": [] if off else [carried(l)]}, None, len(qs)))
            qs.append({"cls": "Invariant", "method": "on", "event": e, "off": off, "dec": shape(l)})
    got = asked(ctx, qs)
    for method, want, lost, i in obs:
        event = i is not None and "event" in qs[i]
        gone = event and qs[i]["off"]

        def go(method=method, want=want, lost=lost, i=i):
            if lost:
                raise AnalysisError(lost)
            rs = got[i]
            und = [r["undecided"] for r in rs if "undecided" in r]
            if und:
                raise AnalysisError(und[0])
            if want == "refused":
                for r in rs:
                    if "ok" in r:
                        raise AnalysisError("a refusal is handed back as an answer")
                if not any('".err"' in json.dumps(r) for r in rs):
                    raise AnalysisError("the error raised does not say which")
                return True
            good = [r["ok"] for r in rs if "ok" in r]
            if event and not gone:
                good = [g for g in good if g.get("tuple")]
            if not good:
                raise AnalysisError("nothing is handed back: %s" % json.dumps(rs[0])[:120])
            for g in good:
                d = unlike(g, want)
                if d:
                    raise AnalysisError(d)
            return True
        key = "%s: %s" % (method, "raises the exchange's refusal" if want == "refused" else "a listener taken off hears nothing" if gone else "the listener gets the event's values" if event else "hands back what the exchange answered")
        ctx.ob(key, go, "", w)
    ctx.fns |= {"sdk/src/invariant.ts: Invariant.%s" % m for m, *_ in obs}
    ctx.fns |= {"sdk/src/utils.ts: %s" % n for n in pk.functions.get("utils.ts", {}) if n.startswith("convert")}


# the package's own arithmetic ----------------------------------------------------------------------------------------
def poly(v):
    """what tsshape.js computed, as a sum of products of what is not a sum or product"""
    if "val" in v:
        x = v["val"]
        if isinstance(x, bool) or x is None:
            raise AnalysisError("arithmetic on %s" % x)
        x = int(x[:-1]) if isinstance(x, str) and re.fullmatch(r"-?\d+n", x) else x
        if not isinstance(x, int):
            raise AnalysisError("arithmetic on %s" % x)
        return {(): x} if x else {}
    if "big" in v:
        return {(v["big"],): 1}
    if "opq" in v:
        return {(v["opq"],): 1}
    if "op" in v:
        o, a = v["op"], v["a"]
        if o in ("BigInt", "Number") and len(a) == 1:
            return poly(a[0])
        if o in ("+", "-") and len(a) == 2:
            return total(poly(a[0]), poly(a[1]), 1 if o == "+" else -1)
        if o == "neg":
            return total({}, poly(a[0]), -1)
        if o == "*":
            return times(poly(a[0]), poly(a[1]))
        return {(quot(o, *[poly(x) for x in a]),): 1}
    raise AnalysisError("arithmetic on a %s" % next(iter(v)))


def total(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def times(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            r = total(r, {tuple(sorted(m + n, key=repr)): c * d})
    return r


def quot(o, *a):
    return (o,) + tuple(tuple(sorted(x.items(), key=repr)) for x in a)


def at_(n):
    return {(n,): 1}


def compared(c, sign):
    """a comparison of x and y (or of their squares), where x - y has that sign"""
    o, a = c.get("op"), c.get("a", [])
    if o not in ("<", ">", "<=", ">=", "===") or len(a) != 2:
        raise AnalysisError("a condition the rule does not know: %s" % o)
    d = total(poly(a[0]), poly(a[1]), -1)
    x, y = at_("x"), at_("y")
    for e, s in ((total(x, y, -1), 1), (total(y, x, -1), -1), (total(times(x, x), times(y, y), -1), 1), (total(times(y, y), times(x, x), -1), -1)):
        if d == e:
            s *= sign
            return s > 0 if o[0] == ">" else s < 0 if o[0] == "<" else s == 0
    raise AnalysisError("a comparison the rule does not know")


def spec_prices(ctx):
    """the package's own helpers for prices and depth compute what they name"""
    w = "sdk/src/utils.ts"
    P, D = at_("ext:getPercentageDenominator()"), at_("ext:getSqrtPriceDenominator()")
    x, y, s = at_("x"), at_("y"), at_("s")
    big = lambda n: {"shape": {"big": True}, "at": n}
    root = lambda v: {(quot("sqrt", v),): 1}
    over = lambda a, b: {(quot("/", a, b),): 1}
    tick = {"obj": {"index": {"big": True}, "sign": {"t": "boolean"}, "liquidityChange": {"big": True}}}
    qs = [{"file": "utils.ts", "fn": "sqrtPriceToPrice", "args": [big("x")]}, {"file": "utils.ts", "fn": "priceToSqrtPrice", "args": [big("x")]},
          {"file": "utils.ts", "fn": "calculateSqrtPriceAfterSlippage", "args": [big("x"), big("s"), {"val": True}]},
          {"file": "utils.ts", "fn": "calculateSqrtPriceAfterSlippage", "args": [big("x"), big("s"), {"val": False}]},
          {"file": "utils.ts", "fn": "calculatePriceImpact", "args": [big("x"), big("y")]},
          {"file": "utils.ts", "fn": "calculateLiquidityBreakpoints", "args": [{"shape": {"tuple": [tick] * 3}}]}]
    got = asked(ctx, qs)

    def results(i):
        for r in got[i]:
            if "undecided" in r:
                raise AnalysisError(r["undecided"])
        rs = [r for r in got[i] if "ok" in r]
        if not rs:
            raise AnalysisError("it gives nothing: %s" % json.dumps(got[i])[:100])
        return rs

    def plain(i, want):
        def go():
            for r in results(i):
                if poly(r["ok"]) != want:
                    raise AnalysisError("it computes something else")
            return True
        return go
    ctx.ob("sqrtPriceToPrice: is the square at the fixed point's scale", plain(0, over(times(x, x), D)), "", w)
    ctx.ob("priceToSqrtPrice: is the root at the fixed point's scale", plain(1, root(times(x, D))), "", w)
    for i, up in ((2, 1), (3, -1)):
        def slipped(i=i, up=up):
            want = over(root(times(times(times(over(times(x, x), D), total(P, s, up)), P), D)), P)
            for r in results(i):
                none = any(h and c.get("op") == "===" and total(poly(c["a"][0]), poly(c["a"][1]), -1) in (s, total({}, s, -1)) for c, h in r["conds"])
                if poly(r["ok"]) != want and not (none and poly(r["ok"]) == x):
                    raise AnalysisError("it computes something else")
            return True
        ctx.ob("calculateSqrtPriceAfterSlippage: is the root of the price %s the tolerance" % ("raised by" if up > 0 else "lowered by"), slipped, "", w)

    def impact():
        for sign in (1, -1):
            a, b = (x, y) if sign > 0 else (y, x)
            want = over(times(total(times(a, a), times(b, b), -1), P), times(a, a))
            live = [r for r in results(4) if all(compared(c, sign) == h for c, h in r["conds"])]
            if not live:
                raise AnalysisError("no answer where the price %s" % ("falls" if sign > 0 else "rises"))
            for r in live:
                if poly(r["ok"]) != want:
                    raise AnalysisError("it computes something else where the price %s" % ("falls" if sign > 0 else "rises"))
        return True
    ctx.ob("calculatePriceImpact: is the change over the larger price", impact, "", w)

    def depth():
        seen = set()
        for r in results(5):
            sg = [r["given"].get(".%d.sign" % i) for i in range(3)]
            if None in sg:
                raise AnalysisError("the sign of a change is not asked for")
            seen.add(tuple(sg))
            t = r["ok"].get("tuple")
            if not t or len(t) != 3:
                raise AnalysisError("not one breakpoint for each tick")
            run = {}
            for i in range(3):
                run = total(run, at_(".%d.liquidityChange" % i), 1 if sg[i] else -1)
                o = t[i].get("obj", {})
                if set(o) != {"liquidity", "index"} or o["index"] != {"big": ".%d.index" % i}:
                    raise AnalysisError("a breakpoint has another index")
                if poly(o["liquidity"]) != run:
                    raise AnalysisError("the liquidity after tick %d is something else" % i)
        return len(seen) == 8 or False
    ctx.ob("calculateLiquidityBreakpoints: the liquidity is the sum of the changes so far", depth, "some signs give nothing", w)
    ctx.fns |= {"sdk/src/utils.ts: %s" % q["fn"] for q in qs}
