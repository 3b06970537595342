// load(DIR): the modules of the package in DIR, transpiled in memory; what it imports from outside is replaced:
// a registry that encodes and decodes SCALE, a message builder that keeps what it is given, and mathematics that keep their calls.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs"), path = require("path"), vm = require("vm");
const split = s => { const out = []; let d = 0, c = "", q = false; for (const x of s) { if (x === '"') q = !q; if (!q && "([{<".includes(x)) d++; if (!q && ")]}>".includes(x)) d--; if (x === "," && !d && !q) { out.push(c.trim()); c = ""; } else c += x; } if (c.trim()) out.push(c.trim()); return out; };
const INT = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, u256: 32, i32: 4 };
class TypeRegistry {
  constructor() { this.t = {}; }
  setKnownTypes() {}
  register(t) { Object.assign(this.t, t); }
  res(s) { while (typeof s === "string" && s in this.t) s = this.t[s]; if (typeof s === "string" && s.trim().startsWith("{")) s = JSON.parse(s); return s; }
  enc(s, v) {
    s = this.res(s);
    if (typeof s === "object") { if (s._enum) return [s._enum.indexOf(v)]; return Object.entries(s).flatMap(([n, t]) => this.enc(t, v[n])); }
    s = s.trim();
    if (s.startsWith("(")) { const p = split(s.slice(1, -1)); return p.length === 1 ? this.enc(p[0], v) : p.flatMap((t, i) => this.enc(t, v[i])); }
    if (s.startsWith("[u8")) return [...Buffer.from(v.replace(/^0x/, ""), "hex")];
    const m = s.match(/^(Vec|Option)<(.*)>$/s);
    if (m && m[1] === "Vec") return [v.length << 2, ...v.flatMap(x => this.enc(m[2], x))];
    if (m) return v === null || v === undefined ? [0] : [1, ...this.enc(m[2], v)];
    if (/^(string|text)$/i.test(s)) return [v.length << 2, ...Buffer.from(v)];
    if (s === "bool") return [v ? 1 : 0];
    const n = INT[s.toLowerCase()]; if (!n) throw new Error("type " + s);
    let x = BigInt.asUintN(n * 8, BigInt(v)); return Array.from({ length: n }, () => { const b = Number(x & 255n); x >>= 8n; return b; });
  }
  dec(s, b) {
    s = this.res(s);
    if (typeof s === "object") { if (s._enum) return s._enum[b.shift()]; return Object.fromEntries(Object.entries(s).map(([n, t]) => [n, this.dec(t, b)])); }
    s = s.trim();
    if (s.startsWith("(")) { const p = split(s.slice(1, -1)); return p.length === 1 ? this.dec(p[0], b) : p.map(t => this.dec(t, b)); }
    if (s.startsWith("[u8")) return "0x" + Buffer.from(b.splice(0, 32)).toString("hex");
    const m = s.match(/^(Vec|Option|Result)<(.*)>$/s);
    if (m && m[1] === "Vec") return Array.from({ length: b.shift() >> 2 }, () => this.dec(m[2], b));
    if (m && m[1] === "Option") return b.shift() ? this.dec(m[2], b) : null;
    if (m) { const [o, e] = split(m[2]); return b.shift() ? { err: this.dec(e, b) } : { ok: this.dec(o, b) }; }
    if (/^(string|text)$/i.test(s)) return Buffer.from(b.splice(0, b.shift() >> 2)).toString();
    if (s === "bool") return !!b.shift();
    if (/^null$/i.test(s)) return null;
    const n = INT[s.toLowerCase()]; if (!n) throw new Error("type " + s);
    let x = 0n; b.splice(0, n).forEach((c, i) => (x += BigInt(c) << BigInt(8 * i))); if (s[0] === "i") x = BigInt.asIntN(n * 8, x);
    return n > 6 ? x.toString() : Number(x);
  }
  createType(s, v) {
    const wrap = x => ({ toJSON: () => x, toHex: () => "0x" + Buffer.from(this.enc("Null", x)).toString("hex") });
    if (typeof v === "string" || v instanceof Uint8Array) { const x = this.dec(s, [...(typeof v === "string" ? Buffer.from(v.slice(2), "hex") : v)]); return x.map ? x.map(wrap) : wrap(x); }
    const b = "0x" + Buffer.from(this.enc(s, v)).toString("hex");
    return { toHex: () => b, toU8a: () => Buffer.from(b.slice(2), "hex") };
  }
}
const wasmCalls = [];
const D = { getPercentageDenominator: 10n ** 12n, getSqrtPriceDenominator: 10n ** 24n, getMaxSwapStep: 80n, getChunkSize: 64n };
const wasm = new Proxy({}, { get: (_, n) => n === "__esModule" ? true : (...a) => { wasmCalls.push([n, a]); return n in D ? D[n] : /Delta|Fee$/.test(n) ? [0, 0, false] : /Denominator|Scale|Limit|Returned|Range|Price$/.test(n) ? 1n : { of: n, args: a }; } });
class TransactionBuilder {
  constructor(api, registry, kind, args, type, reply, program) { Object.assign(this, { api, registry, kind, args, type, reply, program }); this.programId = "0x01"; }
  withGas(g) { this.gas = g; return this; } withValue(v) { this.value = v; return this; } withAccount(a) { this.account = a; return this; }
}
const name = (p, i) => { const b = [...Buffer.from(p.slice(2), "hex")]; let s; for (let k = 0; k <= i; k++) s = Buffer.from(b.splice(0, b.shift() >> 2)).toString(); return s; };
const OUT = {
  "@invariant-labs/vara-sdk-wasm": wasm, "@polkadot/types": { TypeRegistry }, "@gear-js/api": { decodeAddress: a => a },
  "sails-js": { TransactionBuilder, ZERO_ADDRESS: "0x00", getServiceNamePrefix: p => name(p, 0), getFnNamePrefix: p => name(p, 1) },
};
const any = new Proxy(function () {}, { get: (t, n) => (n === Symbol.toPrimitive ? () => "" : any), apply: () => any, construct: () => any });
exports.load = dir => {
  const mods = {};
  const req = n => {
    if (!n.startsWith(".")) return OUT[n] || any;
    const f = path.basename(n).replace(/\.js$/, "") + ".ts";
    if (mods[f]) return mods[f].exports;
    const m = (mods[f] = { exports: {} });
    const src = fs.readFileSync(path.join(dir, f), "utf8").replace(/import\.meta\.url/g, '"file:///"');
    const js = ts.transpileModule(src, { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText;
    vm.runInThisContext("(function(exports, require, module) {" + js + "\n})", { filename: f })(m.exports, req, m);
    return m.exports;
  };
  return { req, wasmCalls, TypeRegistry };
};
exports.check = (what, ok) => { console.log((ok ? "ok: " : "FAILED: ") + what); if (!ok) process.exit(1); };
const U = "0x" + "11".repeat(32);
exports.api = reply => ({ gearEvents: { subscribeToGearEvent: (_, f) => f }, blockGasLimit: { toBigInt: () => 1n }, existentialDeposit: { toBigInt: () => 0n }, message: { calculateReply: async q => ({ payload: reply(q.payload) }) } });
