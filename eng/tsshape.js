// tsshape.js DIR < QUESTIONS: what the functions of a TypeScript package make of a value of which only the shape is known.
//
// An abstract interpreter: an answer's scalars are known by the place they stand at and the type JSON gives them, a list by what its elements look like,
// everything else (arguments, the network) not at all.  A condition on something unknown is taken both ways.  Nothing is run.
// QUESTIONS: [{cls, method, send?, replies: {call: {kind, shape}}, wide} | {cls, method, event, off?, dec, wide} | {file, fn, args, stubs, wide}]; shape: null, {t}, {big}, {obj}, {tuple}, {list}.
// Answers: for each the results of all paths, {ok: value} | {throws: value} | {undecided: why}.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs"), path = require("path");
const dir = process.argv[2];
const files = {};
for (const f of fs.readdirSync(dir).filter(f => f.endsWith(".ts")).sort())
  files[f] = ts.createSourceFile(f, fs.readFileSync(path.join(dir, f), "utf8"), ts.ScriptTarget.Latest, true);
const S = ts.SyntaxKind;
// module scope: name -> {node, file} | {imp, file, name}
const scope = {}, classes = {};
for (const [f, sf] of Object.entries(files)) {
  const m = (scope[f] = {});
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s) && s.importClause) {
      const from = s.moduleSpecifier.text, b = s.importClause.namedBindings;
      if (s.importClause.name) m[s.importClause.name.text] = { imp: from, name: "default" };
      if (b && ts.isNamespaceImport(b)) m[b.name.text] = { ns: from };
      if (b && ts.isNamedImports(b)) for (const e of b.elements) m[e.name.text] = { imp: from, name: (e.propertyName || e.name).text };
    } else if (ts.isFunctionDeclaration(s) && s.name && s.body) m[s.name.text] = { fn: s };
    else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) { if (ts.isIdentifier(d.name) && d.initializer) m[d.name.text] = { init: d.initializer }; }
    else if (ts.isClassDeclaration(s) && s.name) { m[s.name.text] = { cls: s }; classes[s.name.text] = { node: s, file: f }; }
    else if (ts.isEnumDeclaration(s)) m[s.name.text] = { en: s };
  }
}
const local = from => { const b = path.basename(from).replace(/\.js$/, ".ts"); return from.startsWith(".") && files[b] ? b : null; };
function resolve(f, name, depth = 0) {
  const d = scope[f] && scope[f][name];
  if (!d || depth > 8) return null;
  if (d.imp) { const g = local(d.imp); return g ? resolve(g, d.name, depth + 1) : { ext: d.imp, name: d.name }; }
  if (d.ns) { const g = local(d.ns); return g ? { mod: g } : { ext: d.ns, name: "*" }; }
  return { ...d, file: f };
}
// values: JavaScript's own primitives, and
class Leaf { constructor(p, t) { this.p = p; this.t = t; } }            // a scalar of the answer, as JSON carries it; t is what typeof says
class Big { constructor(p) { this.p = p; } }                            // that scalar as a bigint
class Obj { constructor(m, cls) { this.m = new Map(m || []); this.cls = cls; } }
class Arr { constructor(a, e) { this.a = a || []; this.e = e; this.f = {}; this.at = loops; } }  // e: of any length, each like e
class MapV { constructor(of) { this.of = of; } }
class Fn { constructor(node, env) { this.node = node; this.env = env; } }
class Nat { constructor(f, n) { this.f = f; this.n = n; } }
class Opq { constructor(w) { this.w = w; } }                            // anything else
class Op { constructor(o, a) { this.o = o; this.a = a; } }
class Cls { constructor(node, file) { this.node = node; this.file = file; } }
class Mod { constructor(f) { this.f = f; } }
class Dec { constructor(s) { this.s = s; } }
class Svc { constructor() {} }
class Thrown extends Error { constructor(v) { super("throws"); this.v = v; } }
class Cut extends Error { constructor() { super("cut"); } }               // a path that asks the unknown in every round of a loop, beyond the fourth round
class Undec extends Error { constructor(w) { super(w); } }
let loops = 0, script, at_, fuel, replies, depth, globals;
let handed = [], known = {};                                             // callbacks given to code that is not the package's; what some of that code answers
const undec = w => { throw new Undec(w); };
const nil = v => v === undefined || v === null;
const native = v => nil(v) || ["string", "number", "boolean", "bigint"].includes(typeof v);
const typeErr = w => { throw new Thrown(new Obj([["message", w]], null)); };
let given = {}, conds = [], stubs = {};                                                         // what the path takes each scalar it asks about to be
function choose(of) {
  if (of !== undefined && of in given) return given[of];
  const r = choose_();
  if (of !== undefined) given[of] = r;
  return r;
}
function asked(op) { const r = choose(); conds.push([out(op), r]); return r; }
function choose_() {
  if (at_ < script.length) return script[at_++];
  script.push(false); at_++;
  return false;
}
function shape(s, p, wide) {
  if (s === null) return null;
  if (s.t) return new Leaf(p, s.t === "wide" ? wide : s.t);
  if (s.big) return new Big(p);
  if (s.list) return new Arr([], shape(s.list, p + "[]", wide));
  if (s.tuple) return new Arr(s.tuple.map((x, i) => shape(x, p + "." + i, wide)));
  return new Obj(Object.entries(s.obj).map(([n, x]) => [n, shape(x, p + "." + n, wide)]));
}
class Env {
  constructor(file, up, self) { this.file = file; this.up = up || null; this.v = new Map(); this.self = self !== undefined ? self : up ? up.self : undefined; }
  find(n) { for (let e = this; e; e = e.up) if (e.v.has(n)) return e; return null; }
}
function truthy(v) {
  if (native(v)) return !!v;
  if (v instanceof Leaf && v.t === "enum") return true;
  if (v instanceof Leaf || v instanceof Big) return choose(v.p);
  if (v instanceof Op) return asked(v);
  if (v instanceof Opq) return choose();
  return true;
}
function typeOf(v) {
  if (v === null) return "object";
  if (native(v)) return typeof v;
  if (v instanceof Leaf) return v.t === "enum" || v.t === "bytes" ? "string" : v.t;
  if (v instanceof Big) return "bigint";
  if (v instanceof Fn || v instanceof Nat || v instanceof Cls) return "function";
  if (v instanceof Opq || v instanceof Op) return new Opq("typeof");
  return "object";
}
function same(a, b, loose) {
  if (native(a) && native(b)) return loose ? a == b : a === b;
  if (a === b) return true;
  if (nil(a) || nil(b)) { const o = nil(a) ? b : a; return o instanceof Opq || o instanceof Op ? choose() : false; }
  if ([a, b].some(x => x instanceof Opq || x instanceof Op)) return asked(new Op("===", [a, b]));
  const x = typeOf(a), y = typeOf(b);
  if (x !== y && !loose) return false;
  for (const [l, c] of [[a, b], [b, a]]) if (l instanceof Leaf && l.t === "boolean" && typeof c === "boolean") return choose(l.p) === c;
  if ([a, b].some(x => x instanceof Leaf || x instanceof Big)) return asked(new Op("===", [a, b]));
  return false;
}
const clone = (v, f) => v instanceof Leaf ? new Leaf((f || (x => x))(v.p), v.t) : v instanceof Big ? new Big((f || (x => x))(v.p)) : v instanceof Obj ? new Obj([...v.m].map(([k, x]) => [k, clone(x, f)]), v.cls)
  : v instanceof Arr ? Object.assign(new Arr(v.a.map(x => clone(x, f)), v.e === undefined ? undefined : clone(v.e, f)), { f: { ...v.f } }) : v;
function toBig(v) {
  if (v instanceof Big) return v;
  if (v instanceof Leaf) { if (v.t === "enum") typeErr("BigInt"); return new Big(v.p); }
  if (v instanceof Opq || v instanceof Op) return new Op("BigInt", [v]);
  if (native(v)) { try { return BigInt(v); } catch (e) { typeErr("BigInt"); } }
  typeErr("BigInt");
}
const copy = a => Object.assign(new Arr([...a.a], a.e), { f: { ...a.f } });
function iter(v) {
  if (v instanceof Arr) return v;
  if (v instanceof Dec) return v;
  if (v instanceof MapV) return iter(v.of);
  if (typeof v === "string") return new Arr([...v]);
  if (v instanceof Opq || v instanceof Op) return new Arr([], new Opq("element"));
  typeErr("not iterable");
}
const idx = () => new Opq("index");
function each(l, f) {
  // f over the elements: the known ones, or the one that stands for all
  if (l.e === undefined) return l.a.map((x, i) => f(x, i));
  loops++;
  try { return [f(l.e, idx())]; } finally { loops--; }
}
function arrayMethod(l, n) {
  const cb = (f, ...a) => call(f, a);
  const over = (f) => { const r = each(l, (x, i) => cb(f, x, i, l)); return l.e === undefined ? new Arr(r) : Object.assign(new Arr([], r[0]), { f: { ...l.f } }); };
  const flat = l => {
    if (l.e !== undefined) { if (!(l.e instanceof Arr)) return l; if (l.e.e !== undefined) return new Arr([], l.e.e); undec("flat of a list of tuples"); }
    if (l.a.every(x => !(x instanceof Arr) || x.e === undefined)) return new Arr(l.a.flatMap(x => x instanceof Arr ? x.a : [x]));
    undec("flat of unlike parts");
  };
  switch (n) {
    case "map": return over;
    case "forEach": return f => { each(l, (x, i) => cb(f, x, i, l)); };
    case "flat": return () => flat(l);
    case "flatMap": return f => flat(over(f));
    case "filter": return f => { const r = each(l, (x, i) => [x, truthy(cb(f, x, i, l))]); if (l.e === undefined) return new Arr(r.filter(x => x[1]).map(x => x[0])); const o = copy(l); o.f.part = true; return o; };
    case "sort": case "toSorted": return f => {
      const o = n === "sort" ? l : copy(l);
      if (l.e === undefined && l.a.length < 2) return o;
      if (l.e === undefined || !f) undec("sort");
      // the comparator on any two elements, both ways at each of its conditions
      const keep = [script, at_, conds, given], how = [];
      script = [];
      for (let k = 0; k < 64; k++) {
        at_ = 0; conds = []; given = {};
        const r = cb(f, clone(l.e, p => "A|" + p), clone(l.e, p => "B|" + p));
        how.push({ conds, r: out(r) });
        script = script.slice(0, at_);
        while (script.length && script[script.length - 1]) script.pop();
        if (!script.length) break;
        script[script.length - 1] = true;
      }
      [script, at_, conds, given] = keep;
      o.f.sorted = how;
      return o;
    };
    case "reverse": case "toReversed": return () => { const o = n === "reverse" ? l : copy(l); if (o.e === undefined) o.a.reverse(); else if (o.f.reversed) delete o.f.reversed; else o.f.reversed = true; return o; };
    case "slice": return (...a) => { if (!a.length || (a.length === 1 && a[0] === 0)) return copy(l); if (l.e === undefined && a.every(native)) return new Arr(l.a.slice(...a)); const o = copy(l); o.f.part = true; return o; };
    case "concat": return (...a) => spread([l, ...a].map(x => x instanceof Arr ? [x] : x));
    case "push": return (...a) => { for (const x of a) if (loops > l.at && (l.e !== undefined || !l.a.length)) l.e = x; else l.a.push(x); return new Opq("length"); };
    case "includes": return x => l.e !== undefined ? choose() : l.a.some(y => same(y, x));
    case "indexOf": return x => { if (l.e !== undefined) return idx(); return l.a.findIndex(y => same(y, x)); };
    case "some": return f => l.e !== undefined ? choose() : l.a.some((x, i) => truthy(cb(f, x, i, l)));
    case "every": return f => l.e !== undefined ? choose() : l.a.every((x, i) => truthy(cb(f, x, i, l)));
    case "find": return f => l.e !== undefined ? l.e : l.a.find((x, i) => truthy(cb(f, x, i, l)));
    case "reduce": return (f, ...z) => { if (l.e !== undefined) { loops++; try { return cb(f, z[0], l.e, idx(), l); } finally { loops--; } } let i = 0, acc = z.length ? z[0] : l.a[i++]; for (; i < l.a.length; i++) acc = cb(f, acc, l.a[i], i, l); return acc; };
    case "entries": return () => l.e !== undefined ? new Arr([], new Arr([idx(), l.e])) : new Arr(l.a.map((x, i) => new Arr([i, x])));
    case "keys": return () => l.e !== undefined ? new Arr([], idx()) : new Arr(l.a.map((_, i) => i));
    case "values": return () => copy(l);
    case "at": return i => native(i) && l.e === undefined ? l.a.at(i) : l.e !== undefined ? l.e : undec("at");
    case "join": return s => l.e === undefined && l.a.every(native) ? l.a.join(s) : new Opq("text");
    case "shift": return () => l.e === undefined ? l.a.shift() : undec("shift");
    case "pop": return () => l.e === undefined ? l.a.pop() : undec("pop");
    case "fill": case "splice": case "unshift": case "copyWithin": return () => undec(n);
  }
}
function spread(parts) {
  // parts: values, or [list to be spread]
  const out = new Arr();
  for (const p of parts) {
    if (!Array.isArray(p)) { if (out.e !== undefined) undec("a list with more"); out.a.push(p); continue; }
    const l = iter(p[0]);
    if (l instanceof Dec) undec("spread");
    if (l.e === undefined) { if (out.e !== undefined && l.a.length) undec("a list with more"); out.a.push(...l.a); } else { if (parts.length > 1) undec("a list with more"); out.e = l.e; out.f = { ...l.f }; }
  }
  return out;
}
function entriesOf(o) { if (o instanceof Obj) return [...o.m]; if (o instanceof Arr && o.e === undefined) return o.a.map((x, i) => [String(i), x]); if (o instanceof Opq || o instanceof Op) undec("the fields of an unknown value"); if (native(o) || o instanceof Leaf || o instanceof Big) { if (nil(o)) typeErr("fields of nothing"); return []; } undec("fields"); }
globals = {
  BigInt: new Nat(toBig, "BigInt"),
  Number: new Nat(v => v instanceof Leaf ? v : native(v) ? Number(v) : v instanceof Big ? new Leaf(v.p, "number") : new Op("Number", [v])),
  String: new Nat(v => v instanceof Leaf ? new Leaf(v.p, "string") : native(v) ? String(v) : v instanceof Big ? new Leaf(v.p, "string") : new Op("String", [v])),
  Boolean: new Nat(v => truthy(v)),
  "Object.entries": o => new Arr(entriesOf(o).map(([k, v]) => new Arr([k, v]))),
  "Object.keys": o => new Arr(entriesOf(o).map(([k]) => k)),
  "Object.values": o => new Arr(entriesOf(o).map(([, v]) => v)),
  "Object.getOwnPropertyNames": o => new Arr(entriesOf(o).map(([k]) => k)),
  "Object.fromEntries": l => { l = iter(l); if (l.e !== undefined) undec("fromEntries"); return new Obj(l.a.map(x => [index(x, 0), index(x, 1)])); },
  "Object.assign": (t, ...ss) => { for (const s of ss) if (!nil(s)) for (const [k, v] of entriesOf(s)) t.m.set(k, v); return t; },
  "Object.freeze": o => o,
  "Object.create": () => new Obj(),
  "Object.hasOwn": (o, k) => o instanceof Obj ? o.m.has(k) : undec("hasOwn"),
  "Array.isArray": v => v instanceof Arr ? true : v instanceof Opq ? choose() : false,
  "Array.from": (l, f) => { const c = copy(iter(l)); return f ? arrayMethod(c, "map")(f) : c; },
  "Array.of": (...a) => new Arr(a),
  "Promise.all": l => l, "Promise.resolve": v => v,
  "Promise.reject": v => { throw new Thrown(v); },
  "JSON.stringify": v => ({ json: v }), "JSON.parse": v => v && v.json !== undefined ? clone(v.json) : undec("JSON.parse"),
  structuredClone: new Nat(v => clone(v)),
  undefined: undefined, NaN: NaN, Infinity: Infinity,
};
function global_(n) { return n in globals ? globals[n] : new Opq("global:" + n); }
function member(o, n) {
  if (nil(o)) typeErr("field " + n + " of nothing");
  if (o instanceof Obj) {
    if (o.m.has(n)) return o.m.get(n);
    for (let c = o.cls; c;) {
      const m = c.node.members.find(m => (ts.isMethodDeclaration(m) || ts.isGetAccessorDeclaration(m)) && m.name.getText() === n && m.body);
      if (m && ts.isGetAccessorDeclaration(m)) return enter(m, [], new Env(c.file, null, o));
      if (m) return new Fn(m, new Env(c.file, null, o));
      const h = (c.node.heritageClauses || []).find(h => h.token === S.ExtendsKeyword), d = h && resolve(c.file, h.types[0].expression.getText());
      c = d && d.cls ? new Cls(d.cls, d.file) : null;
    }
    if (n === "hasOwnProperty") return new Nat(k => o.m.has(k));
    return undefined;
  }
  if (o instanceof Arr) {
    if (n === "length") return o.e === undefined ? o.a.length : new Opq("length");
    const f = arrayMethod(o, n);
    if (f) return new Nat(f);
    if (/^\d+$/.test(n)) return index(o, +n);
    if (n === "then" || n === "catch" || n === "finally") return promised(o, n);
    return undefined;
  }
  if (o instanceof Dec) return n === "toJSON" ? new Nat(() => o.s()) : o;
  if (o instanceof Svc) return n in replies ? new Nat(() => replies[n].kind === "query" ? replies[n].make() : builder(replies[n].make)) : typeErr("no call " + n);
  if (n === "then" || n === "catch" || n === "finally") return promised(o, n);
  if (o instanceof Mod) return ident(n, new Env(o.f, null));
  if (o instanceof Leaf && ["toString", "valueOf"].includes(n)) return new Nat(() => n === "toString" ? new Leaf(o.p, "string") : o);
  if (o instanceof Big && n === "toString") return new Nat(() => new Leaf(o.p, "string"));
  if (o instanceof MapV) return ["entries", "keys", "values"].includes(n) ? new Nat(() => n === "entries" ? o.of : undec(n)) : n === "set" && o.of.e === undefined ? new Nat((k, v) => { const l = o.of; arrayMethod(l, "push")(new Arr([k, v])); return o; }) : n === "set" ? new Nat((k, v) => { o.of.e = new Arr([k, v]); return o; }) : new Opq("map." + n);
  if (o instanceof Opq && o.w.startsWith("global:")) { const q = o.w.slice(7) + "." + n; return q in globals ? new Nat(globals[q]) : new Opq("global:" + q); }
  if (native(o)) { const v = o[n]; return typeof v === "function" ? new Nat((...a) => { if (!a.every(native)) return new Opq(n); const r = v.apply(o, a); return Array.isArray(r) ? new Arr(r) : r; }) : v; }
  if (o instanceof Cls) { const m = o.node.members.find(m => m.name && m.name.getText() === n); if (m && ts.isMethodDeclaration(m)) return new Fn(m, new Env(o.file, null, o)); if (m && m.initializer) return ev(m.initializer, new Env(o.file, null, o)); return undefined; }
  if (o instanceof Fn || o instanceof Nat) {
    if (n === "bind") return new Nat((t, ...a) => new Nat((...b) => call(o, [...a, ...b])));
    if (n === "call") return new Nat((t, ...a) => call(o, a));
    if (n === "apply") return new Nat((t, l) => call(o, l.a));
  }
  return new Opq("." + n);
}
const promised = (o, n) => new Nat(f => n === "then" && f ? call(f, [o]) : o);
function builder(make) {
  const b = new Obj();
  for (const n of ["withGas", "withValue", "withAccount", "withVoucher", "calculateGas", "withGasLimit"]) b.m.set(n, new Nat(() => b));
  b.m.set("signAndSend", new Nat(() => new Obj([["response", new Nat(() => make())], ["msgId", new Opq("id")], ["blockHash", new Opq("hash")], ["txHash", new Opq("hash")], ["isFinalized", new Opq("final")]])));
  return b;
}
function index(o, i) {
  if (nil(o)) typeErr("element of nothing");
  if (o instanceof Dec) return o;
  if (o instanceof Arr && typeof i === "number") return o.e !== undefined ? o.e : o.a[i];
  if (o instanceof Arr && typeof i === "string") return member(o, i);
  if (o instanceof Arr) { if (o.e !== undefined) return o.e; if (o.a.length && i instanceof Opq && o.a.every(x => x === o.a[0])) return o.a[0]; undec("an element at an unknown place"); }
  if (o instanceof Obj && native(i)) return member(o, String(i));
  if (o instanceof Obj) undec("a field of unknown name");
  if (native(i) && (o instanceof Svc || o instanceof Mod || o instanceof Cls || native(o))) return member(o, String(i));
  return new Opq("element");
}
function strip(n) {
  while (ts.isAsExpression(n) || ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) || ts.isAwaitExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n)) || (ts.isExpressionWithTypeArguments && ts.isExpressionWithTypeArguments(n))) n = n.expression;
  return n;
}
const consts = new Map();
function ident(n, env) {
  const e = env.find(n);
  if (e) return e.v.get(n);
  if (stubs[n]) return new Nat((...a) => new Op(n, a));
  const d = resolve(env.file, n);
  if (!d) return global_(n);
  if (d.ext) return new Opq("ext:" + d.name);
  if (d.mod) return new Mod(d.mod);
  if (d.fn) return new Fn(d.fn, new Env(d.file, null));
  if (d.cls) return new Cls(d.cls, d.file);
  if (d.en) { let k = 0; return new Obj(d.en.members.map(m => { const v = m.initializer ? ev(m.initializer, new Env(d.file, null)) : k; if (typeof v === "number") k = v + 1; return [m.name.text || m.name.getText(), v]; })); }
  if (!consts.has(d.init)) { consts.set(d.init, new Opq("recursive")); consts.set(d.init, ev(d.init, new Env(d.file, null))); }
  return consts.get(d.init);
}
function name_(p, env) { return ts.isComputedPropertyName(p) ? ev(p.expression, env) : p.text !== undefined ? p.text : p.getText(); }
function bind(env, pat, val) {
  if (ts.isIdentifier(pat)) { env.v.set(pat.text, val); return; }
  const dflt = (e, v) => v === undefined && e.initializer ? ev(e.initializer, env) : v;
  if (ts.isObjectBindingPattern(pat)) {
    const seen = [];
    for (const e of pat.elements) {
      if (e.dotDotDotToken) { bind(env, e.name, new Obj(entriesOf(val).filter(([k]) => !seen.includes(k)))); continue; }
      const k = e.propertyName ? name_(e.propertyName, env) : e.name.getText();
      seen.push(k); bind(env, e.name, dflt(e, member(val, k)));
    }
  } else {
    const l = iter(val);
    pat.elements.forEach((e, i) => {
      if (ts.isOmittedExpression(e)) return;
      if (e.dotDotDotToken) bind(env, e.name, l instanceof Arr && l.e === undefined ? new Arr(l.a.slice(i)) : undec("rest of a list"));
      else bind(env, e.name, dflt(e, index(l, i)));
    });
  }
}
function assign(l0, v, env) {
  const l = strip(l0);
  if (ts.isIdentifier(l)) { const e = env.find(l.text); if (!e) undec("assignment to " + l.text); e.v.set(l.text, v); return; }
  if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) {
    const o = ev(l.expression, env), k = ts.isPropertyAccessExpression(l) ? l.name.text : ev(l.argumentExpression, env);
    if (o instanceof Obj) { if (!native(k)) undec("assignment to a field of unknown name"); o.m.set(String(k), v); return; }
    if (o instanceof Arr) {
      if (o.e !== undefined) { if (k instanceof Opq) o.e = v; else undec("assignment to one element of a list"); return; }
      if (native(k)) { o.a[Number(k)] = v; return; }
      if (!o.a.length) { o.e = v; return; }
      undec("assignment to an element");
    }
    if (nil(o)) typeErr("field of nothing");
    return;
  }
  if (ts.isArrayLiteralExpression(l)) { const s = iter(v); l.elements.forEach((e, i) => { if (!ts.isOmittedExpression(e)) assign(e, index(s, i), env); }); return; }
  if (ts.isObjectLiteralExpression(l)) { for (const p of l.properties) if (ts.isShorthandPropertyAssignment(p)) assign(p.name, member(v, p.name.text), env); else if (ts.isPropertyAssignment(p)) assign(p.initializer, member(v, name_(p.name, env)), env); return; }
  undec("assignment");
}
const active = new Map();
function enter(node, args, env) {
  // a recursion on values that are not known gives a value that is not known
  const n = active.get(node) || 0;
  if (n > 1 && args.every(a => native(a) || a instanceof Opq || a instanceof Op)) return new Opq("recursion");
  active.set(node, n + 1);
  try { return enter_(node, args, env); } finally { active.set(node, n); }
}
function enter_(node, args, env) {
  if (++depth > 60) undec("too deep");
  if (--fuel < 0) undec("too long");
  const e = new Env(env.file, env);
  const keep = loops;
  try {
    if (!ts.isArrowFunction(node) && ts.isFunctionLike(node) && node.parameters.some(p => ts.isIdentifier(p.name) && p.name.text === "this")) undec("this parameter");
    node.parameters.forEach((p, i) => {
      if (p.dotDotDotToken) { bind(e, p.name, new Arr(args.slice(i))); return; }
      let v = args[i];
      if (v === undefined && p.initializer) v = ev(p.initializer, e);
      bind(e, p.name, v);
    });
    if (!ts.isBlock(node.body)) return ev(node.body, e);
    const c = block(node.body.statements, e);
    return c && c.t === "ret" ? c.v : undefined;
  } finally { depth--; loops = keep; }
}
function call(f, args) {
  if (--fuel < 0) undec("too long");
  if (f instanceof Fn) return enter(f.node, args, f.env);
  if (f instanceof Nat) return f.f(...args);
  if (f instanceof Dec) return f;
  if (f instanceof Opq) {
    if (f.w in known) return known[f.w];
    for (const a of args) if (a instanceof Fn) handed.push(a);
    return new Opq(f.w + "()");
  }
  typeErr("not a function");
}
function make(c, args) {
  if (c instanceof Cls) {
    const o = new Obj([], c);
    for (const m of c.node.members) if (ts.isPropertyDeclaration(m)) o.m.set(m.name.getText(), m.initializer ? ev(m.initializer, new Env(c.file, null, o)) : undefined);
    const k = c.node.members.find(m => ts.isConstructorDeclaration(m) && m.body);
    if (k) { k.parameters.forEach((p, i) => { if (p.modifiers && p.modifiers.length) o.m.set(p.name.getText(), args[i]); }); enter(k, args, new Env(c.file, null, o)); }
    return o;
  }
  if (c instanceof Opq && c.w === "global:Map") return new MapV(args.length && !nil(args[0]) ? iter(args[0]) : new Arr());
  if (c instanceof Opq && c.w === "global:Set") { const l = args.length ? iter(args[0]) : new Arr(); return new Obj([["has", new Nat(x => arrayMethod(l, "includes")(x))]]); }
  if (c instanceof Opq && c.w === "global:Array") return args.length === 1 && native(args[0]) ? undec("new Array") : new Arr(args);
  if (c instanceof Opq && /^global:\w*Error$/.test(c.w)) return new Obj([["message", args[0]]], null);
  if (c instanceof Opq && c.w === "global:Promise") { let r; call(args[0], [new Nat(v => { r = v; }), new Nat(v => { throw new Thrown(v); })]); return r; }
  return new Opq("new");
}
function args_(n, env) {
  const out = [];
  for (const a of n.arguments || []) if (ts.isSpreadElement(a)) { const l = iter(ev(a.expression, env)); if (l.e !== undefined) undec("spread arguments"); out.push(...l.a); } else out.push(ev(a, env));
  return out;
}
const CHOPPED = { chopped: true };
function ev(n0, env) {
  const v = ev0(n0, env);
  return v === CHOPPED ? undefined : v;
}
function base(n, env) { const m = strip(n); return m.flags & ts.NodeFlags.OptionalChain && m === n ? ev0(m, env) : ev(n, env); }
function ev0(n0, env) {
  if (--fuel < 0) undec("too long");
  const n = strip(n0);
  switch (n.kind) {
    case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return n.text;
    case S.NumericLiteral: return Number(n.text);
    case S.BigIntLiteral: return BigInt(n.text.replace(/n$/, ""));
    case S.TrueKeyword: return true;
    case S.FalseKeyword: return false;
    case S.NullKeyword: return null;
    case S.ThisKeyword: return env.self === undefined ? new Opq("this") : env.self;
    case S.Identifier: return ident(n.text, env);
    case S.RegularExpressionLiteral: return new Opq("regexp");
    case S.TemplateExpression: { let s = n.head.text, ok = true; for (const t of n.templateSpans) { const v = ev(t.expression, env); if (native(v)) s += String(v) + t.literal.text; else ok = false; } return ok ? s : new Opq("text"); }
    case S.ArrayLiteralExpression: return spread(n.elements.map(e => ts.isSpreadElement(e) ? [ev(e.expression, env)] : ts.isOmittedExpression(e) ? undefined : ev(e, env)));
    case S.ObjectLiteralExpression: {
      const o = new Obj();
      for (const p of n.properties) {
        if (ts.isPropertyAssignment(p)) { const k = name_(p.name, env); if (!native(k)) undec("a field of unknown name"); o.m.set(String(k), ev(p.initializer, env)); }
        else if (ts.isShorthandPropertyAssignment(p)) o.m.set(p.name.text, ident(p.name.text, env));
        else if (ts.isSpreadAssignment(p)) { const v = ev(p.expression, env); if (!nil(v)) for (const [k, x] of entriesOf(v)) o.m.set(k, x); }
        else if (ts.isMethodDeclaration(p)) o.m.set(p.name.getText(), new Fn(p, new Env(env.file, env, o)));
        else undec("object");
      }
      return o;
    }
    case S.PropertyAccessExpression: {
      const o = base(n.expression, env);
      if (o === CHOPPED || (n.questionDotToken && nil(o))) return CHOPPED;
      return member(o, n.name.text);
    }
    case S.ElementAccessExpression: {
      const o = base(n.expression, env);
      if (o === CHOPPED || (n.questionDotToken && nil(o))) return CHOPPED;
      return index(o, ev(n.argumentExpression, env));
    }
    case S.CallExpression: {
      const f = base(n.expression, env);
      if (f === CHOPPED || (n.questionDotToken && nil(f))) return CHOPPED;
      if (n.expression.kind === S.ImportKeyword) return new Opq("import");
      return call(f, args_(n, env));
    }
    case S.NewExpression: return make(ev(n.expression, env), args_(n, env));
    case S.ArrowFunction: return new Fn(n, env);
    case S.FunctionExpression: return new Fn(n, env);
    case S.ConditionalExpression: return ev(truthy(ev(n.condition, env)) ? n.whenTrue : n.whenFalse, env);
    case S.TaggedTemplateExpression: case S.MetaProperty: case S.ClassExpression: return new Opq("expression");
    case S.VoidExpression: ev(n.expression, env); return undefined;
    case S.DeleteExpression: { const l = strip(n.expression), o = ev(l.expression, env), k = ts.isPropertyAccessExpression(l) ? l.name.text : ev(l.argumentExpression, env); if (o instanceof Obj && native(k)) { o.m.delete(String(k)); return true; } undec("delete"); }
    case S.PrefixUnaryExpression: {
      const o = ts.tokenToString(n.operator), a = ev(n.operand, env);
      if (o === "!") return !truthy(a);
      if (o === "++" || o === "--") { const v = native(a) ? (o === "++" ? ++[a][0] : a) : new Opq("step"); const w = typeof a === "number" ? (o === "++" ? a + 1 : a - 1) : typeof a === "bigint" ? (o === "++" ? a + 1n : a - 1n) : v; assign(n.operand, w, env); return w; }
      if (native(a) && !nil(a)) return o === "-" ? -a : o === "+" ? Number(a) : ~a;
      return o === "+" && a instanceof Leaf ? a : new Op("neg", [a]);
    }
    case S.PostfixUnaryExpression: { const a = ev(n.operand, env), up = n.operator === S.PlusPlusToken; assign(n.operand, typeof a === "number" ? a + (up ? 1 : -1) : typeof a === "bigint" ? a + (up ? 1n : -1n) : new Opq("step"), env); return a; }
    case S.TypeOfExpression: return typeOf(ev(n.expression, env));
    case S.BinaryExpression: {
      const o = n.operatorToken.getText();
      if (o === "=") { const v = ev(n.right, env); assign(n.left, v, env); return v; }
      if (o === "&&" || o === "||" || o === "??") { const a = ev(n.left, env); if (o === "??") return nil(a) ? ev(n.right, env) : a; const t = truthy(a); return (o === "&&") === t ? ev(n.right, env) : a; }
      if (["&&=", "||=", "??="].includes(o)) { const a = ev(n.left, env); if (o === "??=" ? nil(a) : truthy(a) === (o === "&&=")) { const v = ev(n.right, env); assign(n.left, v, env); return v; } return a; }
      if (o === ",") { ev(n.left, env); return ev(n.right, env); }
      const a = ev(n.left, env), b = ev(n.right, env);
      if (["+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^="].includes(o)) { const v = arith(o.slice(0, -1), a, b); assign(n.left, v, env); return v; }
      switch (o) {
        case "===": return same(a, b, false);
        case "!==": return !same(a, b, false);
        case "==": return same(a, b, true);
        case "!=": return !same(a, b, true);
        case "in": if (b instanceof Obj && native(a)) return b.m.has(String(a)); if (native(b)) typeErr("in"); return b instanceof Opq ? choose() : undec("in");
        case "instanceof": return a instanceof Arr && b instanceof Opq && b.w === "global:Array" ? true : choose();
      }
      return arith(o, a, b);
    }
    default: undec(S[n.kind]);
  }
}
function arith(o, a, b) {
  if (native(a) && native(b)) {
    try {
      switch (o) {
        case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
        case "<": return a < b; case ">": return a > b; case "<=": return a <= b; case ">=": return a >= b;
        case "<<": return a << b; case ">>": return a >> b; case "&": return a & b; case "|": return a | b; case "^": return a ^ b;
      }
    } catch (e) { typeErr(o); }
  }
  return new Op(o, [a, b]);
}
function block(ss, env) {
  for (const s of ss) if (ts.isFunctionDeclaration(s) && s.name && s.body) env.v.set(s.name.text, new Fn(s, env));
  for (const s of ss) { const c = stmt(s, env); if (c) return c; }
  return null;
}
function loop(c) { return c && (c.t === "brk" || c.t === "cont") ? null : c; }
function decl(l, env) { for (const d of l.declarations) bind(env, d.name, d.initializer ? ev(d.initializer, env) : undefined); }
function stmt(s, env) {
  if (--fuel < 0) undec("too long");
  if (ts.isVariableStatement(s)) { decl(s.declarationList, env); return null; }
  if (ts.isExpressionStatement(s)) { ev(s.expression, env); return null; }
  if (ts.isReturnStatement(s)) return { t: "ret", v: s.expression ? ev(s.expression, env) : undefined };
  if (ts.isBlock(s)) return block(s.statements, new Env(env.file, env));
  if (ts.isIfStatement(s)) return truthy(ev(s.expression, env)) ? stmt(s.thenStatement, env) : s.elseStatement ? stmt(s.elseStatement, env) : null;
  if (ts.isThrowStatement(s)) throw new Thrown(ev(s.expression, env));
  if (ts.isContinueStatement(s)) return { t: "cont" };
  if (ts.isBreakStatement(s)) return { t: "brk" };
  if (ts.isEmptyStatement(s) || ts.isFunctionDeclaration(s) || ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s) || s.kind === S.DebuggerStatement) return null;
  if (ts.isLabeledStatement(s)) return stmt(s.statement, env);
  if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
    let l = ev(s.expression, env);
    l = ts.isForInStatement(s) ? globals["Object.keys"](l) : iter(l);
    if (!(l instanceof Arr)) undec("loop");
    const one = x => { const e = new Env(env.file, env); if (ts.isVariableDeclarationList(s.initializer)) bind(e, s.initializer.declarations[0].name, x); else assign(s.initializer, x, e); return stmt(s.statement, e); };
    if (l.e !== undefined) { loops++; try { return loop(one(l.e)); } finally { loops--; } }
    for (const x of [...l.a]) { const c = one(x); if (c && c.t === "brk") break; if (c && c.t === "ret") return c; }
    return null;
  }
  if (ts.isForStatement(s) || ts.isWhileStatement(s) || ts.isDoStatement(s)) {
    const e = new Env(env.file, env);
    const cond = ts.isForStatement(s) ? s.condition : s.expression;
    if (ts.isForStatement(s) && s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) decl(s.initializer, e); else ev(s.initializer, e); }
    for (let k = 0, open = 0, was = at_; k < 2000; k++, was = at_) {
      if (open > 4) throw new Cut();
      const c = cond && !(ts.isDoStatement(s) && k === 0) ? ev(cond, e) : true;
      if (!native(c)) {
        // as often as the data say: once, at an unknown index
        if (k || !ts.isForStatement(s) || !s.initializer || !ts.isVariableDeclarationList(s.initializer)) undec("loop");
        for (const d of s.initializer.declarations) bind(e, d.name, idx());
        loops++;
        try { return loop(stmt(s.statement, new Env(env.file, e))); } finally { loops--; }
      }
      if (!c) return null;
      const r = stmt(s.statement, new Env(env.file, e));
      if (r && r.t === "brk") return null;
      if (r && r.t === "ret") return r;
      if (at_ > was) open++;
      if (ts.isForStatement(s) && s.incrementor) ev(s.incrementor, e);
    }
    undec("loop");
  }
  if (ts.isTryStatement(s)) {
    let c;
    try { c = stmt(s.tryBlock, env); }
    catch (x) {
      if (!(x instanceof Thrown) || !s.catchClause) throw x;
      const e = new Env(env.file, env);
      if (s.catchClause.variableDeclaration) bind(e, s.catchClause.variableDeclaration.name, x.v);
      c = stmt(s.catchClause.block, e);
    }
    if (s.finallyBlock) { const d = stmt(s.finallyBlock, env); if (d) return d; }
    return c;
  }
  if (ts.isSwitchStatement(s)) {
    const v = ev(s.expression, env), e = new Env(env.file, env), cs = s.caseBlock.clauses;
    let k = cs.findIndex(c => ts.isCaseClause(c) && same(v, ev(c.expression, e)));
    if (k < 0) k = cs.findIndex(c => !ts.isCaseClause(c));
    if (k < 0) return null;
    for (; k < cs.length; k++) { const c = block(cs[k].statements, e); if (c) return c.t === "brk" ? null : c; }
    return null;
  }
  undec(S[s.kind]);
}
function out(v) {
  if (v === undefined) return { undef: true };
  if (typeof v === "bigint") return { val: v + "n" };
  if (native(v)) return { val: v };
  if (v instanceof Leaf) return { raw: v.p };
  if (v instanceof Big) return { big: v.p };
  if (v instanceof Obj) return { obj: Object.fromEntries([...v.m].map(([k, x]) => [k, out(x)])) };
  if (v instanceof Arr) return v.e !== undefined ? { list: out(v.e), ...v.f } : { tuple: v.a.map(out) };
  if (v instanceof MapV) return { map: out(v.of) };
  if (v instanceof Op) return { op: v.o, a: v.a.map(out) };
  return { opq: v.w || "function" };
}
function run(q) {
  const res = [];
  script = [];
  for (let paths = 0; ; paths++) {
    if (paths >= 256) return [{ undecided: "too many paths" }];
    at_ = 0; loops = 0; fuel = 200000; depth = 0; consts.clear(); handed = []; known = {}; given = {}; conds = []; stubs = q.stubs || {};
    replies = Object.fromEntries(Object.entries(q.replies || {}).map(([n, r]) => [n, { kind: r.kind, make: () => shape(r.shape, "", q.wide) }]));
    let r;
    try {
      let v;
      if (q.method) {
        const c = classes[q.cls];
        if (!c) undec("no class " + q.cls);
        const registry = q.dec ? new Obj([["createType", new Nat(() => new Dec(() => shape(q.dec, "", q.wide)))]]) : new Opq("registry");
        const contract = new Obj([["service", new Svc()], ["programId", new Opq("id")], ["registry", registry], ["api", new Opq("api")]]);
        const self = new Obj([["contract", contract], ["gasLimit", new Opq("gas")]], new Cls(c.node, c.file));
        for (const m of c.node.members) if (ts.isPropertyDeclaration(m)) self.m.set(m.name.getText(), m.initializer ? ev(m.initializer, new Env(c.file, null, self)) : undefined);
        const f = member(self, q.method);
        if (!(f instanceof Fn)) undec("no method " + q.method);
        if (q.event) {
          // a listener is registered (and taken off again), then a message arrives
          known = { "ext:getFnNamePrefix": q.event, "ext:getServiceNamePrefix": "Service" };
          const got = [], cb = new Obj([["ident", q.event], ["callback", new Nat(x => { got.push(x); })]]);
          call(f, [cb]);
          if (q.off) call(member(self, q.off), [cb]);
          for (const h of [...handed]) call(h, h.node.parameters.map(() => new Opq("message")));
          v = new Arr(got);
        } else v = call(f, f.node.parameters.map(p => p.dotDotDotToken ? new Arr() : p.initializer || p.questionToken ? undefined : new Opq("par:" + p.name.getText())));
        if (q.send) v = call(member(v, "signAndSend"), []);
      } else {
        const f = ident(q.fn, new Env(q.file, null));
        if (!(f instanceof Fn)) undec("no function " + q.fn);
        v = call(f, q.args.map(a => a.val !== undefined ? a.val : a.shape !== undefined ? shape(a.shape, a.at || "", q.wide) : new Opq("arg")));
      }
      r = { ok: out(v), given, conds };
    } catch (e) {
      if (e instanceof Thrown) r = { throws: out(e.v) };
      else if (e instanceof Undec) r = { undecided: e.message };
      else if (e instanceof Cut) r = null;
      else if (e instanceof RangeError) r = { undecided: "too deep" };
      else throw e;
    }
    if (r) res.push(r);
    script = script.slice(0, at_);
    while (script.length && script[script.length - 1]) script.pop();
    if (!script.length) return res;
    script[script.length - 1] = true;
  }
}
const qs = JSON.parse(fs.readFileSync(0, "utf8"));
process.stdout.write(JSON.stringify(qs.map(run)));
