// C21: a store gives back what was put, in the order of its keys.
import * as G from "./ghost.ts";
import { compareKeys, fixKey, fromString, isInRange, restoreKey, toString } from "file:///repo/storage/1_utilities.ts";
import { StorageMemory } from "file:///repo/storage/2_storage_memory.ts";
import { StorageLocalStorage } from "file:///repo/storage/2_storage_local_storage.ts";
import { StorageSessionStorage } from "file:///repo/storage/2_storage_session_storage.ts";
import { StorageIndexedDB } from "file:///repo/storage/2_storage_indexed_db.ts";
import { StorageDenoKV } from "file:///repo/storage/1_storage_deno_kv.ts";

const SAFE = Number.MAX_SAFE_INTEGER;
// contract of the dependency jsr:@std/encoding/base64: decoding undoes encoding
function base64Contract() {
  const known: [string, Uint8Array][] = [];
  G.override("../opt/mtkruto-deps/std/encoding/base64.ts#encodeBase64", (b: Uint8Array) => {
    const text = G.str();
    for (const [t, k] of known) G.assume(t !== text || G.eqBytes(k, b));
    known.push([text, G.snap(b)]);
    return text;
  });
  G.override("../opt/mtkruto-deps/std/encoding/base64.ts#decodeBase64", (t: string) => {
    for (const [text, b] of known) if (text === t) return b;
    throw new TypeError("not base64");
  });
}
// ---- text form of values ----
function scalar(kind: number): any {
  if (kind === 0) return G.bool();
  if (kind === 1) return G.int(-SAFE, SAFE);
  if (kind === 2) return G.str();
  if (kind === 3) return G.big();
  if (kind === 4) return new Date(G.int(-8.64e15, 8.64e15));
  return G.bytes(0, 64);
}
const KINDS = 6;
function same(a: any, b: any): boolean {
  if (b instanceof Date) return a instanceof Date && a.getTime() === b.getTime();
  if (b instanceof Uint8Array) return a instanceof Uint8Array && G.eqBytes(a, b);
  if (Array.isArray(b)) {
    if (!Array.isArray(a) || a.length !== b.length) return false;
    for (let i = 0; i < b.length; i++) if (!same(a[i], b[i])) return false;
    return true;
  }
  if (typeof b === "object") {
    if (typeof a !== "object" || Array.isArray(a)) return false;
    const ka = Object.keys(a), kb = Object.keys(b);
    if (ka.length !== kb.length) return false;
    for (const k of kb) if (!ka.includes(k) || !same(a[k], b[k])) return false;
    return true;
  }
  return typeof a === typeof b && a === b;
}
export function scalars() {
  base64Contract();
  const v = scalar(G.choose(KINDS));
  G.assert(same(fromString(toString(v)), v), "a value survives its text form");
}
export function lists() {
  base64Contract();
  const v = [];
  const n = G.choose(4);
  for (let i = 0; i < n; i++) v.push(scalar(n === 3 ? [1, 2, 3][i] : G.choose(KINDS)));
  G.assert(same(fromString(toString(v)), v), "a list survives its text form");
}
export function nested() {
  base64Contract();
  const a = scalar(1 + G.choose(3)), b = scalar(1 + G.choose(3));
  const v = [[a, [b], []], { a, "b\n": [b], "": {}, "1": "2\n3" }, [[a], { c: b }], []][G.choose(4)];
  G.assert(same(fromString(toString(v)), v), "nested lists and objects survive their text form");
}
export function different_values() {
  base64Contract();
  const a = [scalar(1 + G.choose(3)), scalar(1 + G.choose(3))], b = [scalar(1 + G.choose(3)), scalar(1 + G.choose(3))];
  const eq = same(a, b);
  G.assert((toString(a) === toString(b)) === eq, "different keys have different text forms");
}
// ---- keys ----
const RANK = ["bigint", "number", "string"];
const WORDS = ["", "a", "ab", "b", "B", "é"];
function part(kind: number): any {
  return kind === 0 ? G.big(-(1n << 64n), 1n << 64n) : kind === 1 ? G.int(-SAFE, SAFE) : WORDS[G.choose(WORDS.length)];
}
// keys whose parts have the same kinds; the second may be shorter
function twoKeys() {
  const kinds = [G.choose(3), G.choose(3)];
  const n = G.choose(3), m = G.choose(3);
  const key = (len: number) => {
    const k = [];
    for (let i = 0; i < len; i++) k.push(part(kinds[i]));
    return k;
  };
  return [key(n), key(m)];
}
function order(a: any[], b: any[]): number {
  for (let i = 0; i < a.length && i < b.length; i++) {
    if (a[i] < b[i]) return -1;
    if (a[i] > b[i]) return 1;
  }
  return a.length - b.length;
}
export function key_order() {
  const [a, b] = twoKeys();
  const o = order(a, b), c = compareKeys(a, b);
  G.assert(o < 0 ? c < 0 : o > 0 ? c > 0 : c === 0, "keys are ordered part by part, shorter ones first");
  G.assert(isInRange(a, b, b) === (o === 0), "a range of one key has just that key");
  G.assert(isInRange(a, [], b) === (o <= 0), "a range includes its end and nothing above it");
  G.assert(isInRange(a, b, [...a, 0]) === (o >= 0), "a range includes its start and nothing below it");
}
// ---- memory ----
function entries(g: any): any[] {
  const r = [];
  for (const [k, v] of g) r.push([k, v]);
  return r;
}
export function memory_get_set() {
  const s = new StorageMemory();
  const k1 = [WORDS[1 + G.choose(2)], part(G.choose(2))], k2 = [WORDS[1 + G.choose(2)], part(G.choose(2))];
  const v1 = G.opaque("v1"), v2 = G.opaque("v2");
  G.assert(s.get(k1) === null, "nothing is there at first");
  s.set(k1, v1);
  G.assert(s.get(k1) === v1, "what was put is found");
  const eq = same(k1, k2);
  G.assert(s.get(k2) === (eq ? v1 : null), "only under its own key");
  s.set(k2, v2);
  G.assert(s.get(k2) === v2, "what was put last is found");
  G.assert(s.get(k1) === (eq ? v2 : v1), "another key is left alone");
  s.set(k1, null);
  G.assert(s.get(k1) === null, "what was deleted is gone");
  G.assert(s.get(k2) === (eq ? null : v2), "deleting leaves other keys alone");
}
export function memory_counters() {
  const s = new StorageMemory();
  const a = G.int(-SAFE / 4 | 0, 1 << 30), b = G.int(-(1 << 30), 1 << 30);
  const k = ["n", part(1)];
  s.incr(k, a);
  s.incr(k, b);
  G.assert(s.get(k) === a + b, "a counter adds up");
}
export function memory_branches() {
  const s = new StorageMemory();
  const a = s.branch("a"), b = s.branch("b"), aa = a.branch("a");
  const all = [s, a, b, aa];
  const key = ["k", part(1)];
  const vs = [];
  for (let i = 0; i < 4; i++) {
    const v = G.opaque("v" + i);
    vs.push(v);
    all[i].set(key, v);
  }
  for (let i = 0; i < 4; i++) {
    G.assert(all[i].get(key) === vs[i], "branches do not disturb each other");
    const l = entries(all[i].getMany({ prefix: ["k"] }));
    G.assert(l.length === 1 && same(l[0][0], key) && l[0][1] === vs[i], "a branch lists its own entries under their own keys");
  }
}
function listing(make: () => any, keys: any[], filter: any, matches: (k: any) => boolean) {
  const s = make();
  const vals = [];
  for (let i = 0; i < keys.length; i++) {
    const v = "v" + i;
    vals.push(v);
    s.set(keys[i], v);
  }
  const expected = [];
  for (let i = 0; i < keys.length; i++) {
    if (!matches(keys[i])) continue;
    let p = 0;
    while (p < expected.length && order(keys[expected[p]], keys[i]) < 0) p++;
    expected.splice(p, 0, i);
  }
  const reverse = G.choose(2) === 1;
  if (reverse) expected.reverse();
  const limit = G.choose(3);
  const params: any = limit === 0 ? (reverse ? { reverse } : undefined) : { limit, reverse };
  const got = entries(s.getMany(filter, params));
  const n = limit === 0 ? expected.length : Math.min(limit, expected.length);
  G.assert(got.length === n, "exactly the matching entries are listed, as many as asked for");
  for (let i = 0; i < n; i++) {
    G.assert(same(got[i][0], keys[expected[i]]), "in the order of their keys");
    G.assert(got[i][1] === vals[expected[i]], "with their values");
  }
}
function distinct(keys: any[]) {
  for (let i = 0; i < keys.length; i++) for (let j = 0; j < i; j++) G.assume(!same(keys[i], keys[j]));
}
export function memory_listing() {
  const w = G.choose(2);
  const k = G.choose(2);
  const keys = [["a", part(k)], ["a", part(k)], [["ab", "b"][w], part(k)]];
  distinct(keys);
  listing(() => G.bool() ? new StorageMemory() : new StorageMemory().branch("x"), keys, { prefix: ["a"] }, (x) => x[0] === "a");
}
export function memory_longer_prefix() {
  const k = G.choose(2);
  const p = part(k);
  const keys = [["a", part(k), 1], ["a", part(k), 2]];
  distinct(keys);
  listing(() => new StorageMemory(), keys, { prefix: ["a", p] }, (x) => x[1] === p);
}
export function memory_range() {
  const k = G.choose(2);
  const lo = part(k), hi = part(k);
  const keys = [["a", part(k)], ["a", part(k)], ["b", lo]];
  distinct(keys);
  listing(() => G.bool() ? new StorageMemory() : new StorageMemory().branch("x"), keys, { start: ["a", lo], end: ["a", hi] }, (x) => x[0] === "a" && x[1] >= lo && x[1] <= hi);
}
// ---- web storage: a stand-in of the platform's text-to-text map ----
class Items {
  getItem(k: string): string | null {
    return Object.hasOwn(this, k) ? (this as any)[k] : null;
  }
  setItem(k: string, v: string) {
    (this as any)[k] = String(v);
  }
  removeItem(k: string) {
    delete (this as any)[k];
  }
}
const KEYS = [["a", 1], ["a", 12], ["a", 2n], ["a", "1"], ["ab", 1], ["a"], ["b", -1n, 0], ["a", -3], ["a", 100]];
function webStore(): any {
  const which = G.choose(2);
  const items = new Items();
  G.stub("localStorage", which === 0 ? items : undefined);
  G.stub("sessionStorage", which === 0 ? undefined : items);
  items.setItem("other", "something else");
  const s: any = which === 0 ? new StorageLocalStorage("p") : new StorageSessionStorage("p");
  return s;
}
export function web_get_set() {
  base64Contract();
  const s = webStore();
  const kind = G.choose(KINDS);
  const i = G.choose(KEYS.length), j = G.choose(KEYS.length);
  const v = scalar(kind);
  s.set(KEYS[i], v);
  G.assert(same(s.get(KEYS[i]), v), "what was put is found");
  const w = G.int(-SAFE, SAFE);
  s.set(KEYS[j], w);
  G.assert(s.get(KEYS[j]) === w, "what was put last is found");
  if (i !== j) G.assert(same(s.get(KEYS[i]), v), "another key is left alone");
  s.set(KEYS[i], null);
  G.assert(s.get(KEYS[i]) === null, "what was deleted is gone");
  if (i !== j) G.assert(s.get(KEYS[j]) === w, "deleting leaves other keys alone");
  s.incr(KEYS[i], 3);
  s.incr(KEYS[i], 4);
  G.assert(s.get(KEYS[i]) === 7, "a counter adds up");
}
const LISTED = [["b", -1n, 0], ["a", 100], ["a", 1], ["ab", 1], ["a", 12], ["a"], ["a", 2n], ["a", -3], ["a", 1, 5], ["a", "1", 9]];
export function web_listing() {
  const f = G.choose(5);
  const filter = [{ prefix: ["a"] }, { prefix: [] }, { start: ["a", 1], end: ["a", 12] }, { prefix: ["a", 1] }, { start: ["a", -3], end: ["a", Infinity] }][f];
  // one of them is missing, so that every entry and bound is also seen without its neighbours
  const without = G.choose(LISTED.length);
  const keys = [];
  for (let i = 0; i < LISTED.length; i++) if (i !== without) keys.push(LISTED[i]);
  const lo = f === 2 ? 1 : -3, hi = f === 2 ? 12 : Infinity;
  listing(webStore, keys, filter, (x) => f === 0 ? x[0] === "a" : f === 1 ? true : f === 3 ? x[0] === "a" && x.length > 1 && x[1] === 1 : order(x, ["a", lo]) >= 0 && order(x, ["a", hi]) <= 0);
}
export function web_branches() {
  const s = webStore();
  const b = s.branch("x");
  const i = G.choose(KEYS.length), j = G.choose(KEYS.length);
  s.set(KEYS[i], 1);
  b.set(KEYS[j], 2);
  s.set(KEYS[(i + 1) % KEYS.length], 3);
  G.assert(s.get(KEYS[i]) === 1, "branches do not disturb the store");
  G.assert(b.get(KEYS[j]) === 2, "the store does not disturb branches");
  const own = entries(b.getMany({ prefix: [] }));
  G.assert(own.length === 1 && same(own[0][0], KEYS[j]) && own[0][1] === 2, "a branch lists its own entries under their own keys");
  const l = entries(s.getMany({ prefix: [KEYS[i][0]] }));
  let found = false;
  for (const [k, v] of l) {
    G.assert(v !== 2, "the store does not list what belongs to a branch");
    if (same(k, KEYS[i])) found = true;
  }
  G.assert(found, "the store lists its own entries");
}
// ---- the databases: stand-ins of the platform's stores, ordered as the platform orders keys ----
const KV_RANK: any = { string: 1, number: 2, bigint: 3 };
function kvOrder(a: any[], b: any[]): number {
  for (let i = 0; i < a.length && i < b.length; i++) {
    const x = a[i] instanceof Uint8Array ? 0 : KV_RANK[typeof a[i]], y = b[i] instanceof Uint8Array ? 0 : KV_RANK[typeof b[i]];
    if (x !== y) return x - y;
    if (x === 0) continue;
    if (a[i] < b[i]) return -1;
    if (a[i] > b[i]) return 1;
  }
  return a.length - b.length;
}
class Kv {
  items: any[] = [];
  version = 0;
  races = 0;
  find(key: any[]) {
    for (let i = 0; i < this.items.length; i++) if (kvOrder(this.items[i].key, key) === 0) return i;
    return -1;
  }
  get(key: any[]) {
    const i = this.find(key);
    return Promise.resolve(i < 0 ? { key, value: null, versionstamp: null } : this.items[i]);
  }
  set(key: any[], value: any) {
    const i = this.find(key);
    const item = { key, value, versionstamp: "v" + ++this.version };
    if (i >= 0) this.items[i] = item;
    else {
      let p = 0;
      while (p < this.items.length && kvOrder(this.items[p].key, key) < 0) p++;
      this.items.splice(p, 0, item);
    }
    return Promise.resolve({ ok: true, versionstamp: item.versionstamp });
  }
  delete(key: any[]) {
    const i = this.find(key);
    if (i >= 0) this.items.splice(i, 1);
    return Promise.resolve();
  }
  async *list(selector: any, options: any) {
    const l = [];
    for (const e of this.items) {
      if (selector.prefix !== undefined) {
        const p = selector.prefix;
        if (e.key.length <= p.length || kvOrder(e.key.slice(0, p.length), p) !== 0) continue;
      } else if (kvOrder(e.key, selector.start) < 0 || kvOrder(e.key, selector.end) >= 0) continue;
      l.push(e);
    }
    if (options?.reverse) l.reverse();
    let n = 0;
    for (const e of l) {
      if (options?.limit !== undefined && n >= options.limit) return;
      n++;
      yield e;
    }
  }
  atomic() {
    const kv = this;
    const op: any = { checks: [], sets: [] };
    op.check = (e: any) => {
      op.checks.push(e);
      return op;
    };
    op.set = (k: any, v: any) => {
      op.sets.push([k, v]);
      return op;
    };
    op.commit = async () => {
      if (kv.races > 0) {
        // another process counts at the same time
        kv.races--;
        const cur = (await kv.get(op.sets[0][0])).value ?? 0;
        await kv.set(op.sets[0][0], cur + 1000);
      }
      for (const c of op.checks) if ((await kv.get(c.key)).versionstamp !== c.versionstamp) return { ok: false };
      for (const [k, v] of op.sets) await kv.set(k, v);
      return { ok: true };
    };
    return op;
  }
}
class Request {
  onsuccess: any = null;
  onerror: any = null;
  onblocked: any = null;
  onupgradeneeded: any = null;
  result: any = undefined;
}
// numbers, then text, then lists
function idbOrder(a: any, b: any): number {
  const rank = (x: any) => Array.isArray(x) ? 3 : typeof x === "string" ? 2 : 1;
  if (rank(a) !== rank(b)) return rank(a) - rank(b);
  if (!Array.isArray(a)) return a < b ? -1 : a > b ? 1 : 0;
  for (let i = 0; i < a.length && i < b.length; i++) {
    const o = idbOrder(a[i], b[i]);
    if (o !== 0) return o;
  }
  return a.length - b.length;
}
function done(r: Request) {
  queueMicrotask(() => r.onsuccess?.());
  return r;
}
class ObjectStore {
  items: any[] = [];
  find(key: any) {
    for (let i = 0; i < this.items.length; i++) if (idbOrder(this.items[i].key, key) === 0) return i;
    return -1;
  }
  get(key: any) {
    const r = new Request();
    const i = this.find(key);
    if (i >= 0) r.result = this.items[i].value;
    return done(r);
  }
  put(value: any, key: any) {
    const i = this.find(key);
    if (i >= 0) this.items[i] = { key, value };
    else {
      let p = 0;
      while (p < this.items.length && idbOrder(this.items[p].key, key) < 0) p++;
      this.items.splice(p, 0, { key, value });
    }
    return done(new Request());
  }
  delete(key: any) {
    const i = this.find(key);
    if (i >= 0) this.items.splice(i, 1);
    return done(new Request());
  }
  openKeyCursor(range: any, direction: any) {
    const r = new Request();
    const l = [];
    for (const e of this.items) {
      const lo = idbOrder(e.key, range.lower), hi = range.upper === undefined ? -1 : idbOrder(e.key, range.upper);
      if (lo < 0 || lo === 0 && range.lowerOpen || hi > 0 || hi === 0 && range.upperOpen) continue;
      l.push(e.key);
    }
    if (direction === "prev") l.reverse();
    let i = 0;
    const step = () => {
      r.result = i < l.length ? { key: l[i], continue: () => {
        i++;
        queueMicrotask(step);
      } } : null;
      r.onsuccess?.();
    };
    queueMicrotask(step);
    return r;
  }
}
function databases() {
  const store = new ObjectStore();
  G.stub("indexedDB", {
    cmp: idbOrder,
    open: () => {
      const r = new Request();
      r.result = { createObjectStore: () => store, transaction: () => ({ objectStore: () => store }), close: () => {} };
      queueMicrotask(() => {
        r.onupgradeneeded?.();
        r.onsuccess?.();
      });
      return r;
    },
  });
  G.stub("IDBKeyRange", {
    bound: (lower: any, upper: any, lowerOpen: any, upperOpen: any) => ({ lower, upper, lowerOpen: lowerOpen === true, upperOpen: upperOpen === true }),
    lowerBound: (lower: any, lowerOpen: any) => ({ lower, upper: undefined, lowerOpen: lowerOpen === true, upperOpen: false }),
  });
}
async function database(which: number, kv = new Kv()): Promise<any> {
  if (which === 0) {
    const s = new StorageDenoKV();
    s.kv = kv as any;
    return s;
  }
  databases();
  const s = new StorageIndexedDB("d");
  await s.initialize();
  return s;
}
async function branchOf(s: any, id: string): Promise<any> {
  const b = s.branch(id);
  if (s instanceof StorageDenoKV) (b as any).kv = s.kv;
  else await b.initialize();
  return b;
}
async function all(g: any): Promise<any[]> {
  const r = [];
  for await (const [k, v] of await g) r.push([k, v]);
  return r;
}
export async function database_get_set() {
  const which = G.choose(2);
  const root = await database(which);
  const s = G.bool() ? root : await branchOf(root, "x");
  const i = G.choose(KEYS.length), j = G.choose(KEYS.length);
  const v = G.opaque("v"), w = G.opaque("w");
  G.assert(await s.get(KEYS[i]) === null, "nothing is there at first");
  await s.set(KEYS[i], v);
  G.assert(await s.get(KEYS[i]) === v, "what was put is found");
  await s.set(KEYS[j], w);
  G.assert(await s.get(KEYS[j]) === w, "what was put last is found");
  if (i !== j) G.assert(await s.get(KEYS[i]) === v, "another key is left alone");
  await s.set(KEYS[i], null);
  G.assert(await s.get(KEYS[i]) === null, "what was deleted is gone");
  if (i !== j) G.assert(await s.get(KEYS[j]) === w, "deleting leaves other keys alone");
  G.assert(s === root || await root.get(KEYS[j]) === null, "branches do not disturb the store");
}
export async function database_counters() {
  const which = G.choose(2);
  const kv = new Kv();
  const s = await database(which, kv);
  const a = G.int(-1000, 1000), b = G.int(-1000, 1000);
  await s.incr(["n"], a);
  const races = which === 0 ? G.choose(3) : 0;
  kv.races = races;
  await s.incr(["n"], b);
  G.assert(await s.get(["n"]) === a + b + 1000 * races, "a counter adds up, also when others count");
}
export async function database_listing() {
  const which = G.choose(2);
  const root = await database(which);
  const f = G.choose(5);
  const without = 3 * G.choose(5) + f % 3;
  const branched = without % 2 === 1;
  const s = branched ? await branchOf(root, "x") : root;
  const filter = [{ prefix: ["a"] }, { start: ["a", 1], end: ["a", 12] }, { prefix: ["c", 5n] }, { start: ["c", -200n], end: ["c", 100n] }, { prefix: ["d", 1] }][f];
  const K = [["a", 100], ["c", 5n, 1], ["a", 1], ["ab", 1], ["a", 12], ["c", -10n, 1], ["a", -3], ["c", -5n, 1], ["c", 55n, 2], ["c", -200n, 0], ["c", 100n], ["d", 1, "x"], ["d", 1.5, "y"], ["d", 10, "z"], ["a", "text"]];
  const keys = [];
  for (let i = 0; i < K.length; i++) if (i !== without) keys.push(K[i]);
  const match = (x: any[]) => f === 0 ? x[0] === "a" : f === 1 ? x[0] === "a" && typeof x[1] === "number" && x[1] >= 1 && x[1] <= 12 : f === 2 ? x[0] === "c" && x[1] === 5n : f === 3 ? x[0] === "c" && order(x, ["c", 100n]) <= 0 : x[0] === "d" && x[1] === 1;
  const expected: any[] = [];
  for (let i = 0; i < keys.length; i++) {
    await s.set(keys[i], "v" + i);
    if (branched) await root.set(keys[i], "r" + i);
    if (!match(keys[i])) continue;
    let p = 0;
    while (p < expected.length && kvOrderOrText(expected[p][0], keys[i], which) < 0) p++;
    expected.splice(p, 0, [keys[i], "v" + i]);
  }
  const reverse = G.choose(2) === 1;
  if (reverse) expected.reverse();
  const limit = G.choose(3);
  const got = await all(s.getMany(filter, limit === 0 ? { reverse } : { limit, reverse }));
  const n = limit === 0 ? expected.length : Math.min(limit, expected.length);
  G.assert(got.length === n, "exactly the matching entries are listed, as many as asked for");
  for (let i = 0; i < n; i++) {
    G.assert(same(got[i][0], expected[i][0]), "in the order of their keys");
    G.assert(got[i][1] === expected[i][1], "with their values");
  }
}
// where a text stands among numbers is up to the platform
function kvOrderOrText(a: any[], b: any[], which: number) {
  if (typeof a[1] !== typeof b[1]) return (which === 0) === (typeof a[1] === "string") ? -1 : 1;
  return order(a, b);
}
// what IndexedDB is given as a key leads back to the key, and its order is that of the keys
export function database_keys() {
  const kind = G.choose(3);
  const parts = () => kind === 0 ? G.big(-(1n << 70n), 1n << 70n) : kind === 1 ? G.int(-SAFE, SAFE) : G.str();
  const a = ["k", parts()], b = ["k", parts()];
  G.assert(same(restoreKey(fixKey(a)), a), "a key is recovered");
  if (kind !== 2) G.assert(Math.sign(idbOrder(fixKey(a), fixKey(b))) === Math.sign(order(a, b)), "the order of keys is kept");
}
