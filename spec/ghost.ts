// Concrete semantics of the contract language.  The verifier (engine/) gives these names a symbolic meaning; here they run:
// draws come from a script (a solver counterexample) or from a seeded, edge-biased generator.
// deno-lint-ignore-file no-explicit-any
export class Discard extends Error {}
export class ContractFailure extends Error {
  constructor(public assertion: string) {
    super(assertion);
  }
}

export const symbolic = false;

const S = {
  rng: 1,
  script: null as null | any[],
  rnd: null as null | any[],
  nows: null as null | any[],
  pos: 0,
  rndPos: 0,
  nowPos: 0,
  draws: [] as any[],
  rndDraws: [] as any[],
  nowDraws: [] as any[],
  hits: new Map<string, number>(),
  timers: [] as { f: any; ms: number; id: number; rep: boolean }[],
  timerId: 1,
  size: 1,
  now: 1.7e12,
};
export const state = S;

function r32() {
  S.rng = (S.rng + 0x6D2B79F5) | 0;
  let t = Math.imul(S.rng ^ (S.rng >>> 15), 1 | S.rng);
  t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
  return (t ^ (t >>> 14)) >>> 0;
}
const below = (n: number) => n <= 1 ? 0 : Math.floor(r32() / 4294967296 * n);
function bigBelow(n: bigint) {
  if (n <= 1n) return 0n;
  let x = 0n;
  const bits = n.toString(2).length + 64;
  for (let i = 0; i < bits; i += 32) x = (x << 32n) | BigInt(r32());
  return x % n;
}
const realSet = globalThis.setTimeout, realClear = globalThis.clearTimeout, realSetI = globalThis.setInterval, realClearI = globalThis.clearInterval;
const realNow = Date.now, realGRV = crypto.getRandomValues, realRandom = Math.random;
export const realTimers = { setTimeout: realSet.bind(globalThis), clearTimeout: realClear.bind(globalThis), now: realNow };
const RealDate = Date;
let fixedNow: number | null = null;
// the clock stands still at t until told otherwise
export function setNow(t: number | null) {
  fixedNow = t;
}

export function begin(seed: number, script: any) {
  S.rng = seed | 0;
  S.script = script?.draws ?? null;
  S.rnd = script?.random ?? null;
  S.nows = script?.now ?? null;
  S.pos = S.rndPos = S.nowPos = 0;
  S.draws = [];
  S.rndDraws = [];
  S.nowDraws = [];
  S.timers = [];
  S.timerId = 1;
  S.size = below(4);
  S.now = 1.7e12 + below(1e9);
  saved.length = 0;
  (globalThis as any).setTimeout = (f: any, ms = 0, ...a: any[]) => {
    const id = S.timerId++;
    S.timers.push({ f: () => f(...a), ms, id, rep: false });
    return id;
  };
  (globalThis as any).clearTimeout = (id: any) => {
    S.timers = S.timers.filter((t) => t.id !== id);
  };
  (globalThis as any).setInterval = (f: any, ms = 0, ...a: any[]) => {
    const id = S.timerId++;
    S.timers.push({ f: () => f(...a), ms, id, rep: true });
    return id;
  };
  (globalThis as any).clearInterval = (globalThis as any).clearTimeout;
  fixedNow = null;
  Date.now = () => {
    if (fixedNow !== null) return fixedNow;
    const sc = S.nows?.[S.nowPos++];
    const v = sc !== undefined && sc !== null ? Number(sc) : (S.now += below(6) ? below(3) : below(5e7));
    S.nowDraws.push(v);
    return v;
  };
  (globalThis as any).Date = new Proxy(RealDate, {
    construct: (t, a) => a.length ? new (t as any)(...a) : new t(Date.now()),
    get: (t, k) => Reflect.get(t, k),
  });
  (crypto as any).getRandomValues = (a: any) => {
    const sc = S.rnd?.[S.rndPos++];
    const u = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
    const mode = below(6);
    for (let i = 0; i < u.length; i++) u[i] = sc ? (sc[i] ?? 0) : mode === 0 ? 0 : mode === 1 ? 255 : below(256);
    S.rndDraws.push([...u.slice(0, 4096)]);
    return a;
  };
  Math.random = () => r32() / 4294967296;
}
const saved: [string, any][] = [];
const methods: [any, string, any][] = [];
export function end() {
  (globalThis as any).setTimeout = realSet;
  (globalThis as any).clearTimeout = realClear;
  (globalThis as any).setInterval = realSetI;
  (globalThis as any).clearInterval = realClearI;
  (globalThis as any).Date = RealDate;
  Date.now = realNow;
  (crypto as any).getRandomValues = realGRV.bind(crypto);
  Math.random = realRandom;
  for (const [c, k, d] of methods.reverse()) {
    if (d) Object.defineProperty(c.prototype, k, d);
    else delete c.prototype[k];
  }
  methods.length = 0;
  for (const [k, d] of saved.reverse()) {
    if (d) Object.defineProperty(globalThis, k, d);
    else delete (globalThis as any)[k];
  }
  saved.length = 0;
}

function take(kind: string): any {
  const d = S.script?.[S.pos++];
  if (!d || d.kind !== kind || d.value === null || d.value === undefined) return undefined;
  return d.value;
}
const put_ = (kind: string, value: any) => {
  S.draws.push({ kind, value });
};
const POOL: bigint[] = [];
for (const p of [0, 1, 2, 4, 7, 8, 12, 15, 16, 24, 30, 31, 32, 33, 48, 52, 53, 63, 64, 65, 96, 127, 128]) for (const d of [-2n, -1n, 0n, 1n, 2n]) POOL.push((1n << BigInt(p)) + d, -(1n << BigInt(p)) + d);
POOL.push(253n, 254n, 127n * 4n, 126n * 4n, 1000000000000n, -1000000000000n, -1002147483648n, -2002147483648n, 2878n, 2873n);
const recent: bigint[] = [];
function drawBig(lo: bigint, hi: bigint): bigint {
  const s = take("int");
  let v: bigint;
  if (s !== undefined) v = BigInt(s);
  else {
    const m = below(10);
    if (m < 2) v = lo + BigInt(below(6));
    else if (m < 3) v = hi - BigInt(below(4));
    else if (m < 5) v = POOL[below(POOL.length)];
    else if (m < 6 && recent.length) v = recent[below(recent.length)] + BigInt(below(5) - 2);
    else if (m < 8) {
      // uniform in magnitude
      const w = hi - lo;
      const bits = w.toString(2).length;
      v = lo + bigBelow(1n << BigInt(below(bits) + 1));
    } else v = lo + bigBelow(hi - lo + 1n);
    if (v < lo || v > hi) v = lo + bigBelow(hi - lo + 1n);
  }
  recent.push(v);
  if (recent.length > 12) recent.shift();
  put_("int", v.toString());
  return v;
}
export function int(lo = -Number.MAX_SAFE_INTEGER, hi = Number.MAX_SAFE_INTEGER): number {
  if (lo > hi) throw new Discard();
  return Number(drawBig(BigInt(lo), BigInt(hi)));
}
export function big(lo = -(1n << 130n), hi = 1n << 130n): bigint {
  if (lo > hi) throw new Discard();
  return drawBig(lo, hi);
}
export function choose(n: number): number {
  const s = take("choice");
  const v = s !== undefined ? Math.min(Number(s), n - 1) : below(n);
  put_("choice", String(v));
  return v;
}
export function bool(): boolean {
  return choose(2) === 0;
}
export function symBool(): boolean {
  const s = take("bool");
  const v = s !== undefined ? !!s : below(2) === 0;
  put_("bool", v);
  return v;
}
const LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 128, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 504, 508, 512, 516, 1024];
const BIGLENS = [2048, 2872, 2873, 2874, 4096, 5746, 65534, 65535, 65536, 70000];
export function bytes(lo = 0, hi = 0x7FFFFFFF): Uint8Array<ArrayBuffer> {
  const s = take("bytes");
  let a: Uint8Array<ArrayBuffer>;
  if (s !== undefined) a = new Uint8Array(s);
  else {
    let n: number;
    const m = below(100);
    if (lo === hi) n = lo;
    else if (m < 45) n = LENS[below(LENS.length)];
    else if (m < 75) n = lo + below(Math.min(hi - lo + 1, 40));
    else if (m < 97) n = lo + below(Math.min(hi - lo + 1, 600));
    else if (m < 99) n = BIGLENS[below(BIGLENS.length)];
    else n = hi <= 200000 ? hi - below(3) : lo + below(Math.min(hi - lo, 100000));
    if (n < lo || n > hi) n = lo + below(Math.min(hi - lo + 1, 64));
    a = new Uint8Array(n);
    const mode = below(6);
    for (let i = 0; i < n; i++) a[i] = mode === 0 ? 0 : mode === 1 ? 255 : mode === 2 ? (below(3) ? 0 : below(256)) : below(256);
  }
  put_("bytes", a.length > 8192 ? { length: a.length } : [...a]);
  return a;
}
const STRS = ["", "a", "b", "0", "1", "ab", "A", "é", "日本", "😀", "x".repeat(300), "username", "me", "\u0000", " ", "a b", "B", "S", "N", "null", "[]"];
// a string; with a limit, one of at most that many bytes in UTF-8
export function str(max = Infinity): string {
  const v = str_();
  if (max < Infinity && new TextEncoder().encode(v).length > max) throw new Discard();
  return v;
}
function str_(): string {
  const s = take("str");
  let v: string;
  if (typeof s === "string") v = s;
  else if (s !== undefined) v = "s" + s;
  else {
    const m = below(3);
    if (m === 0) v = STRS[below(STRS.length)];
    else if (m === 1) v = "k" + below(4);
    else {
      v = "";
      const n = below(12);
      for (let i = 0; i < n; i++) v += String.fromCodePoint(below(4) ? 32 + below(95) : below(2) ? below(0xD800) : 0x1F300 + below(300));
    }
  }
  put_("str", v);
  return v;
}
const f64 = new DataView(new ArrayBuffer(8));
const DBLS = [0, -0, 1, -1, 0.5, 0.1, NaN, Infinity, -Infinity, 1e308, 5e-324, Number.MAX_SAFE_INTEGER, 2 ** 53 + 2, 1 / 3];
export function double(): number {
  const s = take("dbl");
  if (s !== undefined) f64.setBigUint64(0, BigInt(s));
  else if (below(3)) f64.setFloat64(0, DBLS[below(DBLS.length)]);
  else f64.setBigUint64(0, bigBelow(1n << 64n));
  put_("dbl", f64.getBigUint64(0).toString());
  return f64.getFloat64(0);
}
// the same value, NaN being itself
export const same = (a: any, b: any): boolean => Object.is(a, b);
// an object of a schema: any constructor of the wanted type, optional fields present or not, shallow below a few levels
const kinds = new WeakMap<any, Map<string, string[]>>();
export function object(schema: any, name: string, depth = 0): any {
  let byType = kinds.get(schema)!;
  if (!byType) {
    byType = new Map();
    for (const [n, d] of Object.entries<any>(schema.definitions)) {
      if (schema.identifierToName[d[0]] !== n) continue; // a function
      const l = byType.get(d[2]) ?? [];
      byType.set(d[2], l);
      l.push(n);
    }
    const weight = (n: string) => schema.definitions[n][1].filter(([, t]: any) => !t.includes("?") && !/^(#|bytes|int|int128|int256|long|double|string|Bool|true)$/.test(t) && !/^[Vv]ector</.test(t)).length;
    // what takes no further object comes first
    for (const l of byType.values()) l.sort((a, b) => weight(a) - weight(b));
    kinds.set(schema, byType);
  }
  const value = (t: string): any => {
    switch (t) {
      case "bytes":
        return bytes(0, 40);
      case "int128":
        return big(-(1n << 127n), (1n << 127n) - 1n);
      case "int256":
        return big(-(1n << 255n), (1n << 255n) - 1n);
      case "long":
        return big(-(1n << 63n), (1n << 63n) - 1n);
      case "int":
        return int(-2147483648, 2147483647);
      case "double":
        return double();
      case "string":
        return str();
      case "Bool":
        return bool();
      case "true":
        return true;
    }
    if (/^[Vv]ector</.test(t)) return Array.from({ length: choose(depth > 2 ? 1 : 3) }, () => value(t.slice(t.indexOf("<") + 1, -1)));
    if (schema.definitions[t]) return object(schema, t, depth + 1);
    const l = byType.get(t);
    if (!l) throw new Error("no constructor of " + t);
    return object(schema, l[depth > 3 ? 0 : choose(l.length)], depth + 1);
  };
  const o: any = { _: name };
  const flags = new Map<string, boolean>();
  for (const [n, t] of schema.definitions[name][1]) {
    if (t === "#") continue;
    const q = t.indexOf("?");
    if (q >= 0) {
      const bit = t.slice(0, q);
      if (!flags.has(bit)) flags.set(bit, depth < 3 && bool());
      if (!flags.get(bit)) continue;
    }
    o[n] = value(t.slice(q + 1));
  }
  return o;
}
let opq = 0;
export function opaque(name = "opaque"): any {
  take("opaque");
  put_("opaque", name);
  return { ["$" + name]: ++opq };
}
export function assume(c: boolean) {
  if (!c) throw new Discard();
}
export function assert(c: boolean, name = "assert") {
  if (typeof c !== "boolean") throw new Error("assert: not a condition");
  S.hits.set(name, (S.hits.get(name) ?? 0) + 1);
  if (!c) throw new ContractFailure(name);
}
export const lemma = (c: boolean, name = "") => assert(c, "lemma " + name);
export function fail(name = "fail"): never {
  throw new ContractFailure(name);
}
export function forall(lo: any, hi: any, f: (i: any) => boolean): boolean {
  const n = Number(hi) - Number(lo);
  if (n > 20000) {
    for (let k = 0; k < 4000; k++) {
      const i = k < 500 ? k : k < 1000 ? n - 1 - (k - 500) : below(n);
      if (!f(typeof lo === "bigint" ? lo + BigInt(i) : lo + i)) return false;
    }
    return true;
  }
  for (let i = lo; i < hi; i++) if (!f(i)) return false;
  return true;
}
export function eqBytes(a: Uint8Array, b: Uint8Array): boolean {
  if (a.length !== b.length) return false;
  for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
  return true;
}
export function eqRange(a: Uint8Array, ao: number, b: Uint8Array, bo: number, n: number): boolean {
  for (let i = 0; i < n; i++) if (a[ao + i] !== b[bo + i]) return false;
  return true;
}
// symbolic: the consequent is only evaluated when the antecedent can hold; as in JavaScript, write implies(a, b) with b total
export const implies = (a: boolean, b: boolean) => !a || b;
export const and = (...as: boolean[]) => as.every((x) => x);
export const pure = <T>(f: () => T): T => f();
export const snap = (b: Uint8Array): Uint8Array => b.slice();
export function inv(..._: any[]) {}
export function fn(name: string): (...a: any[]) => any {
  return (...as: any[]) => {
    let h = 2166136261;
    for (const c of name + "|" + as.join("|")) h = Math.imul(h ^ c.codePointAt(0)!, 16777619);
    return as.some((a) => typeof a === "bigint") ? BigInt(h >>> 0) : h >>> 0;
  };
}
export function axiom(..._: any[]) {}
export function note(_: string) {}
export function log(..._: any[]) {}
// (the platform's digests and ciphers run on other threads)
let working = 0;
for (const k of ["digest", "encrypt", "decrypt", "importKey", "deriveBits", "deriveKey", "sign", "verify"]) {
  const f = (crypto.subtle as any)[k];
  (crypto.subtle as any)[k] = (...a: any[]) => {
    ++working;
    const done = () => {
      --working;
    };
    const p = f.apply(crypto.subtle, a);
    p.then(done, done);
    return p;
  };
}
export async function settle() {
  // the event loop gets to its timers only after every promise chain that can run has run
  for (let i = 0; i < 2 || working > 0; i++) {
    await new Promise((r) => realTimers.setTimeout(r, 0));
    if (working > 0) i = 0;
  }
}
// fires the timers that were set for at most max milliseconds
export function timers(max = Infinity): number {
  const l = S.timers.filter((t) => t.ms <= max);
  S.timers = S.timers.filter((t) => t.rep || t.ms > max);
  for (const t of l) t.f();
  return l.length;
}
const priv = (k: string) => k.startsWith("#") ? "_priv_" + k.slice(1) : k;
export const get = (o: any, k: string): any => o[priv(k)];
export const put = (o: any, k: string, v: any) => {
  o[priv(k)] = v;
};
export const has = (o: any, k: string) => priv(k) in o;
export const callPrivate = (o: any, k: string, ...a: any[]): any => o[priv(k)](...a);
export function stub(name: string, f: any) {
  saved.push([name, Object.getOwnPropertyDescriptor(globalThis, name)]);
  Object.defineProperty(globalThis, name, { value: f, configurable: true, writable: true });
}
// gives a class another method or getter (the contract of a callee)
export function method(c: any, k: string, f: any) {
  methods.push([c, k, Object.getOwnPropertyDescriptor(c.prototype, k)]);
  Object.defineProperty(c.prototype, k, { value: f, configurable: true, writable: true });
}
export function getter(c: any, k: string, f: any) {
  methods.push([c, k, Object.getOwnPropertyDescriptor(c.prototype, k)]);
  Object.defineProperty(c.prototype, k, { get: f, configurable: true });
}
export function override(..._: any[]) {}
export const sort = (v: any) => typeof v;
