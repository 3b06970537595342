// ts.js DIR: the calls that the functions of a TypeScript package make, as expressions over their parameters.
//
// Reads every DIR/*.ts, and evaluates each method of each class and each exported function once over symbolic parameters: local constants, helper
// functions and methods of the same package are followed, both sides of a condition are taken, callbacks are entered with unknown arguments.
// Nothing is run.  Output: {classes: {name: {method: F}}, functions: {file: {name: F}}} with F = {params, calls: [{callee, args, conds}], result}.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs"), path = require("path");
const dir = process.argv[2];
const files = {};
for (const f of fs.readdirSync(dir).filter(f => f.endsWith(".ts")).sort())
  files[f] = ts.createSourceFile(f, fs.readFileSync(path.join(dir, f), "utf8"), ts.ScriptTarget.Latest, true);
const S = ts.SyntaxKind;
// module scope: name -> {node, file} | {imp, file, name}
const scope = {}, classes = {};
for (const [f, sf] of Object.entries(files)) {
  const m = (scope[f] = {});
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s) && s.importClause) {
      const from = s.moduleSpecifier.text, b = s.importClause.namedBindings;
      if (s.importClause.name) m[s.importClause.name.text] = { imp: from, name: "default" };
      if (b && ts.isNamespaceImport(b)) m[b.name.text] = { ns: from };
      if (b && ts.isNamedImports(b)) for (const e of b.elements) m[e.name.text] = { imp: from, name: (e.propertyName || e.name).text };
    } else if (ts.isFunctionDeclaration(s) && s.name && s.body) m[s.name.text] = { fn: s };
    else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) { if (ts.isIdentifier(d.name) && d.initializer) m[d.name.text] = { init: d.initializer }; }
    else if (ts.isClassDeclaration(s) && s.name) { m[s.name.text] = { cls: s }; classes[s.name.text] = { node: s, file: f }; }
    else if (ts.isEnumDeclaration(s)) m[s.name.text] = { en: s };
  }
}
const local = from => { const b = path.basename(from).replace(/\.js$/, ".ts"); return from.startsWith(".") && files[b] ? b : null; };
function resolve(f, name, depth = 0) {
  const d = scope[f] && scope[f][name];
  if (!d || depth > 8) return null;
  if (d.imp) { const g = local(d.imp); return g ? resolve(g, d.name, depth + 1) : { ext: d.imp, name: d.name }; }
  if (d.ns) { const g = local(d.ns); return g ? { mod: g } : { ext: d.ns, name: "*" }; }
  return { ...d, file: f };
}
const str = v => ({ k: "str", v }), unk = w => ({ k: "unk", w });
let calls, conds, depth, stack;
class Env {
  constructor(file, cls, up) { this.file = file; this.cls = cls; this.v = up ? Object.create(up.v) : Object.create(null); this.ret = null; }
}
const undef = { k: "undef" };
function bind(env, pat, val) {
  if (ts.isIdentifier(pat)) env.v[pat.text] = val;
  else if (ts.isObjectBindingPattern(pat)) for (const e of pat.elements) bind(env, e.name, member(val, (e.propertyName || e.name).getText()));
  else if (ts.isArrayBindingPattern(pat)) pat.elements.forEach((e, i) => { if (!ts.isOmittedExpression(e)) bind(env, e.name, index(val, i)); });
}
function member(o, n) {
  if (o.k === "obj" && Object.prototype.hasOwnProperty.call(o.m, n)) return o.m[n];
  return { k: "mem", o, n };
}
function index(o, i) {
  if (o.k === "arr" && typeof i === "number" && i < o.a.length && !o.a.some(x => x.k === "spread")) return o.a[i];
  return { k: "idx", o, i };
}
function fnval(node, env) { return { k: "fn", node, env }; }
function enter(node, args, env, self) {
  // follow a function of the package
  if (depth > 12 || stack.includes(node)) return unk("recursion");
  depth++; stack.push(node);
  const e = new Env(env.file, self !== undefined ? self : env.cls, env.up ? env : undefined);
  if (env.v) e.v = Object.create(env.v);
  node.parameters.forEach((p, i) => {
    let v = i < args.length ? args[i] : p.initializer ? ev(p.initializer, e) : undef;
    if (p.dotDotDotToken) v = { k: "arr", a: args.slice(i) };
    bind(e, p.name, v);
  });
  let r;
  if (ts.isBlock(node.body)) { e.rets = []; block(node.body, e); r = join(e.rets); } else r = ev(node.body, e);
  depth--; stack.pop();
  return r;
}
function join(rs) {
  let r = null;
  for (const [c, v] of [...rs].reverse()) r = r === null || !c.length ? v : { k: "choice", c: c[c.length - 1][0], a: c[c.length - 1][1] ? v : r, b: c[c.length - 1][1] ? r : v };
  return r || undef;
}
function strip(n) {
  while (ts.isAsExpression(n) || ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) || ts.isAwaitExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n))) n = n.expression;
  return n;
}
function ident(name, env) {
  if (name in env.v) return env.v[name];
  if (name === "undefined") return undef;
  const d = resolve(env.file, name);
  if (!d) return { k: "glob", n: name };
  if (d.ext) return { k: "ext", m: d.ext, n: d.name };
  if (d.mod) return { k: "mod", f: d.mod };
  if (d.fn) return fnval(d.fn, new Env(d.file, null));
  if (d.cls) return { k: "cls", n: name };
  if (d.en) return { k: "obj", m: Object.fromEntries(d.en.members.map(m => [m.name.getText(), m.initializer ? ev(m.initializer, new Env(d.file, null)) : unk("enum")])) };
  if (stack.includes(d.init)) return unk("recursion");
  stack.push(d.init);
  const r = ev(d.init, new Env(d.file, null));
  stack.pop();
  return r.k === "fn" || ["str", "num", "arr", "obj", "ext", "cls"].includes(r.k) ? r : { k: "const", n: name, v: r };
}
function call(node, f, args, env) {
  if (f.k === "fn") return enter(f.node, args, f.env, f.env.cls);
  if (f.k === "choice") { const b = conds; conds = [...b, [f.c, true]]; const x = call(node, f.a, args, env); conds = [...b, [f.c, false]]; const y = call(node, f.b, args, env); conds = b; return { k: "choice", c: f.c, a: x, b: y }; }
  if (f.k === "mem" && f.o.k === "mod") { const v = ident(f.n, new Env(f.o.f, null)); if (v.k === "fn") return enter(v.node, args, v.env, null); }
  if (f.k === "mem" && f.o.k === "this") {
    const c = classes[f.o.c], m = c && c.node.members.find(m => ts.isMethodDeclaration(m) && m.name.getText() === f.n && m.body);
    if (m) { const e = new Env(c.file, f.o.c); return enter(m, args, e, f.o.c); }
  }
  // callbacks are entered with what they are called with, as far as that is known
  for (const [i, a] of args.entries()) if (a.k === "fn") {
    const over = f.k === "mem" && ["map", "forEach", "filter", "flatMap", "some", "find", "every"].includes(f.n);
    const ps = a.node.parameters.map((p, j) => over && j === 0 ? { k: "each", o: f.o } : unk("callback"));
    const r = enter(a.node, ps, a.env, a.env.cls);
    if (over && f.n === "map" && i === 0) return { k: "map", o: f.o, r };
  }
  const r = { k: "call", f, args: args.map(a => a.k === "fn" ? unk("function") : a) };
  calls.push({ f, args: r.args, conds: [...conds], line: node.getSourceFile().getLineAndCharacterOfPosition(node.getStart()).line + 1, file: env.file });
  return r;
}
function ev(n0, env) {
  const n = strip(n0);
  switch (n.kind) {
    case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return str(n.text);
    case S.NumericLiteral: return { k: "num", v: n.text };
    case S.BigIntLiteral: return { k: "num", v: n.text.replace(/n$/, "") };
    case S.TrueKeyword: return { k: "bool", v: true };
    case S.FalseKeyword: return { k: "bool", v: false };
    case S.NullKeyword: return { k: "null" };
    case S.ThisKeyword: return { k: "this", c: env.cls };
    case S.Identifier: return ident(n.text, env);
    case S.TemplateExpression: {
      let parts = [str(n.head.text)];
      for (const s of n.templateSpans) parts.push(ev(s.expression, env), str(s.literal.text));
      return parts.every(p => p.k === "str") ? str(parts.map(p => p.v).join("")) : { k: "op", o: "tpl", a: parts };
    }
    case S.ArrayLiteralExpression: {
      const a = [];
      for (const e of n.elements) {
        if (ts.isSpreadElement(e)) { const v = ev(e.expression, env); if (v.k === "arr") a.push(...v.a); else a.push({ k: "spread", o: v }); } else a.push(ev(e, env));
      }
      return { k: "arr", a };
    }
    case S.ObjectLiteralExpression: {
      const m = {};
      for (const p of n.properties) {
        if (ts.isPropertyAssignment(p)) m[ts.isComputedPropertyName(p.name) ? "?" : (p.name.text !== undefined ? p.name.text : p.name.getText())] = ev(p.initializer, env);
        else if (ts.isShorthandPropertyAssignment(p)) m[p.name.text] = ident(p.name.text, env);
        else if (ts.isSpreadAssignment(p)) { const v = ev(p.expression, env); if (v.k === "obj") Object.assign(m, v.m); else m["..."] = v; }
      }
      return { k: "obj", m };
    }
    case S.PropertyAccessExpression: {
      const o = ev(n.expression, env);
      if (o.k === "mod") { const v = ident(n.name.text, new Env(o.f, null)); return v; }
      return member(o, n.name.text);
    }
    case S.ElementAccessExpression: {
      const o = ev(n.expression, env), i = ev(n.argumentExpression, env);
      if (i.k === "num") return index(o, +i.v);
      if (i.k === "str") return member(o, i.v);
      return { k: "idx", o, i };
    }
    case S.CallExpression: {
      const f = n.expression.kind === S.SuperKeyword ? unk("super") : ev(n.expression, env);
      const args = [];
      for (const a of n.arguments) { if (ts.isSpreadElement(a)) { const v = ev(a.expression, env); if (v.k === "arr") args.push(...v.a); else args.push({ k: "spread", o: v }); } else args.push(ev(a, env)); }
      return call(n, f, args, env);
    }
    case S.NewExpression: {
      const f = ev(n.expression, env), args = (n.arguments || []).map(a => ev(a, env));
      const r = { k: "new", f, args: args.map(a => a.k === "fn" ? unk("function") : a) };
      calls.push({ f, new: true, args: r.args, conds: [...conds], line: n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1, file: env.file });
      return r;
    }
    case S.ArrowFunction: case S.FunctionExpression: return fnval(n, env);
    case S.ConditionalExpression: {
      const c = ev(n.condition, env), b = conds;
      if (c.k === "bool") return ev(c.v ? n.whenTrue : n.whenFalse, env);
      conds = [...b, [c, true]]; const x = ev(n.whenTrue, env);
      conds = [...b, [c, false]]; const y = ev(n.whenFalse, env);
      conds = b;
      return c.k === "op" && c.o === "!" ? { k: "choice", c: c.a[0], a: y, b: x } : { k: "choice", c, a: x, b: y };
    }
    case S.PrefixUnaryExpression: {
      const a = ev(n.operand, env), o = ts.tokenToString(n.operator);
      if (o === "!" && a.k === "bool") return { k: "bool", v: !a.v };
      if (o === "!" && a.k === "op" && a.o === "!") return a.a[0];
      if (o === "-" && a.k === "num") return { k: "num", v: "-" + a.v };
      return { k: "op", o: o === "-" ? "neg" : o, a: [a] };
    }
    case S.PostfixUnaryExpression: ev(n.operand, env); return unk("step");
    case S.BinaryExpression: {
      const o = n.operatorToken.getText();
      if (o === "=") { const v = ev(n.right, env); assign(n.left, v, env); return v; }
      if (/^[^=!<>]+=$/.test(o)) { const v = { k: "op", o: o.slice(0, -1), a: [ev(n.left, env), ev(n.right, env)] }; assign(n.left, v, env); return v; }
      const a = ev(n.left, env), b = ev(n.right, env);
      if (o === "+" && a.k === "str" && b.k === "str") return str(a.v + b.v);
      return { k: "op", o, a: [a, b] };
    }
    case S.TypeOfExpression: return { k: "op", o: "typeof", a: [ev(n.expression, env)] };
    default: ts.forEachChild(n, c => { if (ts.isExpression(c)) ev(c, env); }); return unk(S[n.kind]);
  }
}
function set(env, name, v) {
  let e = env.v;
  while (e && !Object.prototype.hasOwnProperty.call(e, name)) e = Object.getPrototypeOf(e);
  (e || env.v)[name] = v;
}
function assign(l0, v, env) {
  const l = strip(l0);
  if (ts.isIdentifier(l)) set(env, l.text, conds.length > (env.base || 0) && l.text in env.v ? { k: "choice", c: conds[conds.length - 1][0], a: conds[conds.length - 1][1] ? v : env.v[l.text], b: conds[conds.length - 1][1] ? env.v[l.text] : v } : v);
  else if (ts.isPropertyAccessExpression(l)) { const o = ev(l.expression, env); const r = root(l); if (r && r.depth === 1 && r.name in env.v) set(env, r.name, { k: "set", o, n: l.name.text, v }); }
  else if (ts.isElementAccessExpression(l)) { const o = ev(l.expression, env), i = ev(l.argumentExpression, env); const r = root(l); if (r && r.depth === 1 && r.name in env.v) set(env, r.name, { k: "set", o, n: i.k === "num" ? "#" + i.v : "?", v }); }
}
function root(l) {
  let d = 0, x = strip(l);
  while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) { d++; x = strip(x.expression); }
  return ts.isIdentifier(x) ? { name: x.text, depth: d } : null;
}
function exits(s) {
  if (!s) return false;
  if (ts.isReturnStatement(s) || ts.isThrowStatement(s) || ts.isBreakStatement(s) || ts.isContinueStatement(s)) return true;
  if (ts.isBlock(s)) return s.statements.some(exits);
  if (ts.isIfStatement(s)) return exits(s.thenStatement) && exits(s.elseStatement);
  return false;
}
function block(b, env) {
  const keep = conds;
  for (const s of b.statements) {
    stmt(s, env);
    if (ts.isIfStatement(s) && exits(s.thenStatement) && !exits(s.elseStatement)) conds = [...conds, [env.lastCond, false]];
  }
  conds = keep;
}
function stmt(s, env) {
  if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) bind(env, d.name, d.initializer ? ev(d.initializer, env) : undef);
  else if (ts.isExpressionStatement(s)) ev(s.expression, env);
  else if (ts.isReturnStatement(s)) { const v = s.expression ? ev(s.expression, env) : undef; (env.rets || []).push([conds, v]); }
  else if (ts.isBlock(s)) { const e = new Env(env.file, env.cls); e.v = Object.create(env.v); e.rets = env.rets; block(s, e); }
  else if (ts.isIfStatement(s)) {
    const c = ev(s.expression, env), b = conds;
    const neg = c.k === "op" && c.o === "!", cc = neg ? c.a[0] : c;
    if (!(c.k === "bool" && !c.v)) { conds = [...b, [cc, !neg]]; stmt(s.thenStatement, env); }
    if (s.elseStatement && !(c.k === "bool" && c.v)) { conds = [...b, [cc, neg]]; stmt(s.elseStatement, env); }
    conds = b;
    env.lastCond = neg ? { k: "op", o: "!", a: [cc] } : cc;
  } else if (ts.isForStatement(s)) {
    const e = new Env(env.file, env.cls); e.v = Object.create(env.v); e.rets = env.rets;
    if (s.initializer && ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) bind(e, d.name, { k: "loop", n: d.name.getText(), from: d.initializer ? ev(d.initializer, e) : undef });
    if (s.condition) ev(s.condition, e);
    stmt(s.statement, e);
  } else if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
    const e = new Env(env.file, env.cls); e.v = Object.create(env.v); e.rets = env.rets;
    const o = ev(s.expression, env);
    if (ts.isVariableDeclarationList(s.initializer)) bind(e, s.initializer.declarations[0].name, { k: "each", o });
    stmt(s.statement, e);
  } else if (ts.isWhileStatement(s) || ts.isDoStatement(s)) { ev(s.expression, env); stmt(s.statement, env); }
  else if (ts.isTryStatement(s)) { stmt(s.tryBlock, env); if (s.catchClause) stmt(s.catchClause.block, env); if (s.finallyBlock) stmt(s.finallyBlock, env); }
  else if (ts.isThrowStatement(s)) ev(s.expression, env);
  else if (ts.isSwitchStatement(s)) {
    const v = ev(s.expression, env), b = conds;
    for (const c of s.caseBlock.clauses) {
      conds = c.expression ? [...b, [{ k: "op", o: "===", a: [v, ev(c.expression, env)] }, true]] : b;
      for (const t of c.statements) stmt(t, env);
    }
    conds = b;
  }
}
function analyse(node, file, cls, own) {
  calls = []; conds = []; depth = 0; stack = [node];
  const env = new Env(file, cls);
  const ps = [];
  node.parameters.forEach((p, i) => {
    const names = ts.isIdentifier(p.name) ? p.name.text : "p" + i;
    ps.push(names);
    bind(env, p.name, { k: "par", i, n: names });
  });
  env.rets = [];
  let r;
  if (ts.isBlock(node.body)) { block(node.body, env); r = join(env.rets); } else r = ev(node.body, env);
  return { params: ps, types: node.parameters.map(p => p.type ? p.type.getText() : ""), calls, result: r.k === "fn" ? unk("function") : r };
}
const out = { classes: {}, functions: {} };
for (const [n, c] of Object.entries(classes)) {
  out.classes[n] = {};
  for (const m of c.node.members) {
    if (ts.isMethodDeclaration(m) && m.body) out.classes[n][m.name.getText()] = analyse(m, c.file, n);
    if (ts.isConstructorDeclaration(m) && m.body) out.classes[n]["constructor()"] = analyse(m, c.file, n);
  }
}
for (const f of Object.keys(files)) {
  out.functions[f] = {};
  for (const name of Object.keys(scope[f])) {
    const d = scope[f][name];
    if (d.fn) out.functions[f][name] = analyse(d.fn, f, null);
    else if (d.init) {
      const x = strip(d.init);
      if (ts.isArrowFunction(x) || ts.isFunctionExpression(x)) out.functions[f][name] = analyse(x, f, null);
      else if (ts.isIdentifier(x)) { stack = []; calls = []; conds = []; depth = 0; const v = ident(x.text, new Env(f, null)); if (v.k === "fn") out.functions[f][name] = analyse(v.node, v.env.file, null); else out.functions[f][name] = { params: [], types: [], calls, result: v, value: true }; }
      else { stack = []; calls = []; conds = []; depth = 0; const v = ev(x, new Env(f, null)); if (v.k !== "fn") out.functions[f][name] = { params: [], types: [], calls, result: v, value: true }; }
    }
  }
}
const seen = new WeakSet();
process.stdout.write(JSON.stringify(out, (k, v) => (k === "env" || k === "node" ? undefined : v && v.k === "fn" ? { k: "unk", w: "function" } : v)));
