// C14: the stream cipher of obfuscated connections does not depend on how the stream is cut, and decrypts what it encrypts.
import * as G from "./ghost.ts";
import { aesCtr } from "./ctr_contract.ts";
import { CTR } from "file:///repo/utilities/1_crypto.ts";

function join(a: Uint8Array, b: Uint8Array) {
  const r = new Uint8Array(a.length + b.length);
  r.set(a);
  r.set(b, a.length);
  return r;
}
function counter(iv: Uint8Array) {
  let n = 0n;
  for (let i = 0; i < 16; i++) n = n * 256n + BigInt(iv[i]);
  return n;
}
const fresh = async (key: any, iv: any) => new CTR(await CTR.importKey(key), iv);

// what a cipher does next depends on the number of bytes it has processed, not on how they were cut; by induction the same
// holds for any number of cuts
export async function cutting() {
  const key = G.bytes(32, 32) as any, iv = G.bytes(16, 16);
  const a = G.bytes(0, 1 << 20) as any, b = G.bytes(0, 1 << 20) as any;
  const w = await aesCtr(key, iv, join(a, b));
  const cut = await fresh(key, iv);
  const x = await cut.call(a), y = await cut.call(b);
  G.assert(w.length === a.length + b.length && x.length === a.length && y.length === b.length, "as many bytes leave as enter");
  G.assert(G.eqRange(x, 0, w, 0, a.length), "the first piece is encrypted as in one piece");
  G.assert(G.eqRange(y, 0, w, a.length, b.length), "the second piece continues where the first ended");
}
export async function state_after_cutting() {
  const key = G.bytes(32, 32) as any, iv = G.bytes(16, 16);
  const a = G.bytes(0, 1 << 20) as any, b = G.bytes(0, 1 << 20) as any;
  const c = await fresh(key, iv);
  await c.call(a);
  await c.call(b);
  const s = c._state, total = a.length + b.length;
  G.assert(s.state === total % 16, "the position within a block is that of the number of bytes processed");
  G.assert(counter(s.iv) === (counter(iv) + BigInt(total - total % 16) / 16n) % (1n << 128n), "the counter counts the whole blocks processed");
}
export async function decrypts() {
  const key = G.bytes(32, 32) as any, iv = G.bytes(16, 16);
  const a = G.bytes(0, 1 << 20) as any;
  const before = G.snap(a);
  const enc = await (await fresh(key, iv)).call(a);
  const n = G.int(0, a.length);
  const d = await fresh(key, iv);
  const x = await d.call(enc.subarray(0, n) as any), y = await d.call(enc.subarray(n) as any);
  G.assert(G.eqBytes(join(x, y), a), "decrypting gives back what was encrypted");
  G.assert(G.eqBytes(a, before), "the caller's buffer is left alone");
}
// calls made at the same time are served one after the other, in the order they were made
export async function concurrent() {
  const key = G.bytes(32, 32) as any, iv = G.bytes(16, 16);
  const a = G.bytes(0, 1 << 16) as any, b = G.bytes(0, 1 << 16) as any;
  const whole = await fresh(key, iv), cut = await fresh(key, iv);
  const w = await whole.call(join(a, b) as any);
  const [x, y] = await Promise.all([cut.call(a), cut.call(b)]);
  G.assert(G.eqRange(x, 0, w, 0, a.length), "the call made first is served first");
  G.assert(G.eqRange(y, 0, w, a.length, b.length), "the call made second is served second");
}
