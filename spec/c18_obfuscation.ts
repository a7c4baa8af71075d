// C18: an obfuscated connection starts with a header the server can tell, and both directions are encrypted with what it derives from it.
import * as G from "./ghost.ts";
import { aesCtr, CtrContract } from "./ctr_contract.ts";
import { TransportAbridged } from "file:///repo/transport/1_transport_abridged.ts";
import { TransportIntermediate } from "file:///repo/transport/1_transport_intermediate.ts";

function concat(a: Uint8Array, b: Uint8Array) {
  const r = new Uint8Array(a.length + b.length);
  r.set(a);
  r.set(b, a.length);
  return r;
}
class Pipe {
  sent = new Uint8Array(0);
  toRead = new Uint8Array(0);
  at = 0;
  stateChangeHandler: any;
  isConnected = true;
  open() {}
  close() {}
  write(b: Uint8Array) {
    this.sent = concat(this.sent, b);
    return Promise.resolve();
  }
  read(b: Uint8Array) {
    G.assert(this.at + b.length <= this.toRead.length, "no more is awaited than the server sent");
    b.set(this.toRead.subarray(this.at, this.at + b.length));
    this.at += b.length;
    return Promise.resolve();
  }
}
// ---- the server, from the description of the protocol ----
const ctr = aesCtr;
async function derive(header: Uint8Array, secret: Uint8Array | undefined) {
  let key = header.slice(8, 40);
  if (secret !== undefined) key = new Uint8Array(await crypto.subtle.digest("SHA-256", concat(key, secret)));
  return { key, iv: header.slice(40, 56) };
}
function reversed(b: Uint8Array) {
  const r = new Uint8Array(64);
  for (let i = 0; i < 64; i++) r[i] = b[63 - i];
  return r;
}
interface Kind {
  make: (c: any) => any;
  tag: number;
  dcId?: number;
  secret?: Uint8Array;
}
// a secret of seventeen bytes or more carries sixteen bytes of key behind its first byte
function kind(): Kind {
  G.override("utilities/1_crypto.ts#CTR", CtrContract); // C14
  const w = G.choose(3);
  if (w === 0) return { make: (c) => new TransportAbridged(c, true), tag: 0xEF };
  const isPadded = w === 2;
  const which = G.choose(4);
  const dcId = which === 0 ? undefined : G.int(-10005, 10005);
  const raw = which < 2 ? undefined : which === 2 ? G.bytes(16, 16) : G.bytes(17, 80);
  const secret = raw === undefined ? undefined : raw.length === 16 ? raw : raw.slice(1, 17);
  return { make: (c) => new TransportIntermediate(c, { isObfuscated: true, isPadded, dcId, secret: raw }), tag: isPadded ? 0xDD : 0xEE, dcId, secret };
}
const u32 = (b: Uint8Array, at: number) => b[at] + b[at + 1] * 256 + b[at + 2] * 65536 + b[at + 3] * 16777216;

export async function header() {
  const k = kind();
  const pipe = new Pipe();
  const t = k.make(pipe);
  await t.initialize();
  const h = pipe.sent;
  G.assert(h.length === 64, "the header takes sixty-four bytes");
  G.assert(h[0] !== 0xEF, "the header is not that of a plain abridged connection");
  const first = u32(h, 0);
  for (const x of [0x44414548, 0x54534F50, 0x20544547, 0x4954504F, 0x02010316, 0xDDDDDDDD, 0xEEEEEEEE]) G.assert(first !== x, "the header is not that of another protocol");
  G.assert(u32(h, 4) !== 0, "the header is not that of a full connection");
  const { key, iv } = await derive(h, k.secret);
  const plain = await ctr(key, iv, h);
  for (let i = 56; i < 60; i++) G.assert(plain[i] === k.tag, "the server learns the framing");
  if (k.dcId !== undefined) {
    const v = plain[60] + 256 * plain[61];
    G.assert((v >= 32768 ? v - 65536 : v) === k.dcId, "the server learns the data centre");
  }
}
export async function to_server() {
  const k = kind();
  const pipe = new Pipe();
  const t = k.make(pipe);
  await t.initialize();
  const a = G.bytes(0, 1 << 16), b = G.bytes(0, 1 << 16);
  const x = a.subarray(0, a.length - a.length % 4), y = b.subarray(0, b.length - b.length % 4);
  await t.send(x);
  const middle = pipe.sent.length;
  await t.send(y);
  const wire = pipe.sent;
  const { key, iv } = await derive(wire, k.secret);
  const plain = await ctr(key, iv, wire);
  const ox = 64 + (k.tag === 0xEF && x.length < 4 * 0x7F ? 1 : 4), oy = middle + (k.tag === 0xEF && y.length < 4 * 0x7F ? 1 : 4);
  G.assert(G.eqRange(plain, ox, x, 0, x.length), "the server reads the first payload");
  G.assert(G.eqRange(plain, oy, y, 0, y.length), "the server reads the next payload");
  if (k.tag !== 0xEF) G.assert(u32(plain, 64) === middle - 68 && u32(plain, middle) === plain.length - middle - 4, "the server reads the lengths");
}
export async function from_server() {
  const k = kind();
  const pipe = new Pipe();
  const t = k.make(pipe);
  await t.initialize();
  const x = G.bytes(4, 4 * 0x7E), n = x.length - x.length % 4;
  const y = G.bytes(4, 4 * 0x7E), m = y.length - y.length % 4;
  const frame = (b: Uint8Array, n: number) => concat(k.tag === 0xEF ? new Uint8Array([n / 4]) : new Uint8Array([n % 256, (n - n % 256) / 256, 0, 0]), b.subarray(0, n));
  const { key, iv } = await derive(reversed(pipe.sent), k.secret);
  pipe.toRead = await ctr(key, iv, concat(frame(x, n), frame(y, m)));
  const x2 = await t.receive(), y2 = await t.receive();
  G.assert(G.eqBytes(x2, x.subarray(0, n)), "the client reads the first payload");
  G.assert(G.eqBytes(y2, y.subarray(0, m)), "the client reads the next payload");
  G.assert(pipe.at === pipe.toRead.length, "nothing is left over");
}
