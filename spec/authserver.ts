// The server's side of the creation of an authorization key, written from the protocol description; shared by contract files.
import * as G from "./ghost.ts";
import { concat, ige256Decrypt, ige256Encrypt } from "file:///repo/0_deps.ts";
import { digest, le, sha1, u, Wire } from "./server.ts";

export const P = BigInt(
  "0xc71caeb9c6b1c9048e6c522f70f13f73980d40238e3e21c14934d037563d930f48198a0aa7c14058229493d22530f4dbfa336f6e0ac925139543aed44cce7c3720fd51f69458705ac68cd4fe6b6b13abdc9746512969328454f18faf8c595f642477fe96bb2a941d5bcd1d4ac8cc49880708fa9b378e3c4f3a9060bee67cf9a4a4a695811051907e162753b56b0f6b410dba74d8a84b2a14b3144e0ef1284754fd17ed950d5965b4b9dd46582db1178d169c6bc465b0d6ff9ca3928fef5b9ae4e418fc15e83ebea0f87fa9ff5eed70050ded2849f47bf959d956850ce929851f0d8115f635b105ee2e4e15d04b2454bf6f4fadf034b10403119cd8e3b92fcc5b",
);
const N = BigInt(
  "0xee4dd8abebf89ee2bfaca6fad5bcec6f7b3e8ac2502db1d071612d01122624b815e7206fe0d3448a56026dd3ab3adac19929a539281aa43a78388fd46654d7e43f3f53f8c1e48b744fdadcd2a7257efed65e4c5d75926595d8f0fb511eb94aabe0bc995f322dd75f2545f966e8d2ef2870e133a5573c8a11286a2ce994139850344e42a28f536a30d8d1b8291a18056665b4310806c43d0f8dc259ef63c53484a878da129c97f6adba5408badec200b786eaa4b0b6cf182b69b4f2c1110e2aa504daeee5eb175a4b89034ad6f713956eff667aa03b1cabe9df4a8589ab2f33a7600c168ed5ae90275bb3a86637355dc5c15f097fcef03b2de8bdea09df7b8a05",
);
const D = BigInt(
  "0xaa6f52bfe30cf5d606705d1c99317d885e04e509047f29e582b19596667c91567793ce4735ece3e06c9360293b15e4cf01d41f2f39d7940d9d5e16c03a5003f862a3d052e199ab838c7963e5e55593f67f2b0242f58bb6cbed54ace9dfa7761867ab7ba5f225871bad74d6631bb1810ad370bd974b45291a0c65a3a98b16589fe2f5a3bfcc6e8667203dbc3d4ff0faad18f8272c5cef0146450aeaf959332b4b20dacc228c574e1442f66ed88bb3cd4a07d09055967983e3eb863ab555a3accc50b1458651004beb4175562d1ba6505417aa5ed332b5f8ce43fa3b15ba75ec5b119953a8179b6cfddb3e1d67441c8011122a0344930fd3a844a972184ae7d701",
);
export const FINGERPRINT = -5859577972006586033n;
export const PUBLIC_KEYS: any = [[1n, [35n, 3n]], [FINGERPRINT, [N, 65537n]], [2n, [35n, 3n]]];

export const big = (b: Uint8Array) => {
  let v = 0n;
  for (const x of b) v = v * 256n + BigInt(x);
  return v;
};
export const be = (v: bigint, n: number) => {
  const b = new Uint8Array(n);
  for (let i = n - 1; i >= 0; --i) {
    b[i] = Number(v & 255n);
    v >>= 8n;
  }
  return b;
};
export function power(a: bigint, e: bigint, n: bigint) {
  let r = 1n;
  for (; e > 0n; e >>= 1n) {
    if (e & 1n) r = r * a % n;
    a = a * a % n;
  }
  return r;
}
// the type "bytes"
export const str = (b: Uint8Array) => {
  const head = b.length < 254 ? [b.length] : [254, b.length & 255, b.length >> 8, 0];
  const r = new Uint8Array(Math.ceil((head.length + b.length) / 4) * 4);
  r.set(head);
  r.set(b, head.length);
  return r;
};
export class In {
  i = 0;
  b: Uint8Array;
  constructor(b: Uint8Array) {
    this.b = b;
  }
  raw(n: number) {
    if (this.i + n > this.b.length) throw new Error("too short");
    this.i += n;
    return this.b.subarray(this.i - n, this.i);
  }
  n(n: number) {
    return u(this.raw(n), 0, n);
  }
  str() {
    let n = Number(this.n(1)), h = 1;
    if (n === 254) n = Number(this.n(3)), h = 4;
    const r = this.raw(n);
    this.i += (4 - (h + n) % 4) % 4;
    return r;
  }
}

// Random numbers that are all different; those of 256 bytes are the given ones.
let counter = 0, shape = 0, exponents: number[] = [];
export function start(bs: number[], s: number) {
  G.override("../opt/mtkruto-deps/std/assert/_equal.ts#format", () => ""); // the text of an error
  counter = 0, shape = s, exponents = bs.slice();
  (crypto as any).getRandomValues = (a: any) => {
    const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
    counter += 7;
    if (b.length === 256) {
      const e = exponents.length > 1 ? exponents.shift()! : exponents[0];
      b.fill(0);
      b[0] = e % 256, b[1] = Math.floor(e / 256);
    } else for (let i = 0; i < b.length; ++i) b[i] = (counter * 31 + i * 17 + 1) % 256;
    if (b.length === 16 || b.length === 32) {
      if (shape === 0) b[b.length - 1] = 1; // positive
      if (shape === 1) b[b.length - 1] = 0x81; // negative
      if (shape === 2) b[b.length - 1] = 0, b[b.length - 2] = 0; // short
      if (shape === 3) b[b.length - 1] = 255, b[b.length - 2] = 255, b[0] = 0, b[1] = 0;
    }
    return a;
  };
  (Math as any).random = () => 0.4;
}

export class AuthServer {
  wire = new Wire();
  log: string[] = [];
  wrong: string[] = []; // what the client got wrong
  // the numbers of the server
  p = 10007n;
  q = 10009n;
  pq_ = be(10007n * 10009n, 8);
  serverNonce = Uint8Array.from([9, 200, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 130]);
  a = 3001n;
  g = 3;
  prime = be(P, 256);
  fingerprints = [77n, FINGERPRINT, 78n];
  dc = 2n;
  isTemporary = false;
  padding = -1; // of the answer; as much as is needed by default
  // what the server does wrong
  attempts = 0;
  edit: any = {};

  nonce: any;
  newNonce: any;
  key: any;
  ga: any;
  gb: any;
  aes: any;
  id = 1n;
  check(ok: boolean, what: string) {
    if (!ok) this.wrong.push(what);
  }
  connect() {
    const w = this.wire as any;
    const self = this;
    let queue: Uint8Array[] = [];
    w.send = async (b: Uint8Array) => {
      const r = new In(b.slice());
      self.check(r.n(8) === 0n, "the key identifier of a plain message");
      self.check(r.n(8) % 4n === 0n, "the message identifier");
      const n = Number(r.n(4));
      self.check(n === b.length - 20, "the length");
      const answer = await self.answer(r.raw(n).slice());
      if (answer) queue.push(concat([le(0n, 8), le(self.id += 4n, 8), le(BigInt(answer.length), 4), answer]));
    };
    w.receive = async () => {
      if (!queue.length) throw new Error("lost");
      return queue.shift();
    };
    return { connection: w, transport: w, dcId: 2 };
  }
  // the value of a field of an answer, as changed by the contract
  field(name: string, v: any) {
    return name in this.edit ? this.edit[name](v) : v;
  }
  async answer(b: Uint8Array): Promise<any> {
    const r = new In(b), id = r.n(4);
    if (id === 0xbe7e8ef1n) {
      this.log.push("req_pq_multi");
      this.nonce = r.raw(16);
      this.check(r.i === b.length, "req_pq_multi");
      ++this.attempts;
      return concat([le(0x05162463n, 4), this.field("pq.nonce", this.nonce), this.serverNonce, str(this.pq_), le(0x1cb5c415n, 4), le(BigInt(this.fingerprints.length), 4), ...this.fingerprints.map((f) => le(BigInt.asUintN(64, f), 8))]);
    }
    if (id === 0xd712e4ben) {
      this.log.push("req_DH_params");
      this.check(big(r.raw(16)) === big(this.nonce), "nonce");
      this.check(big(r.raw(16)) === big(this.serverNonce), "server nonce");
      const p = r.str(), q = r.str();
      this.check(big(p) === this.p && big(q) === this.q, "factors");
      this.check(BigInt.asIntN(64, r.n(8)) === FINGERPRINT, "fingerprint");
      const data = r.str();
      this.check(data.length === 256 && r.i === b.length, "req_DH_params");
      await this.inner(be(power(big(data), D, N), 256), p, q);
      return this.params();
    }
    if (id === 0xf5045f1fn) {
      this.log.push("set_client_DH_params");
      this.check(big(r.raw(16)) === big(this.nonce), "nonce");
      this.check(big(r.raw(16)) === big(this.serverNonce), "server nonce");
      const data = r.str();
      this.check(r.i === b.length, "set_client_DH_params");
      await this.client(ige256Decrypt(data.slice(), this.aes.key, this.aes.iv));
      const h = async (n: number) => (await sha1(concat([this.newNonce, Uint8Array.from([n]), (await sha1(this.key)).subarray(0, 8)]))).subarray(4, 20);
      const kind = this.field("gen.kind", 1);
      return concat([le([0x3bcbf734n, 0x46dc1fb9n, 0xa69dae02n][kind - 1], 4), this.field("gen.nonce", this.nonce), this.field("gen.server_nonce", this.serverNonce), this.field("gen.hash", await h(kind))]);
    }
    this.check(false, "an unknown request");
  }
  // p_q_inner_data_dc or p_q_inner_data_temp_dc
  async inner(block: Uint8Array, p: Uint8Array, q: Uint8Array) {
    const encrypted = block.slice(32), xor = await digest(encrypted);
    const key = block.slice(0, 32).map((v, i) => v ^ xor[i]);
    const plain = ige256Decrypt(encrypted, key, new Uint8Array(32));
    this.check(plain.length === 224, "the padded block");
    const data = plain.slice(0, 192).reverse();
    this.check(big(await digest(concat([key, data]))) === big(plain.subarray(192)), "the digest of the block");
    const r = new In(data);
    this.check(r.n(4) === (this.isTemporary ? 0x56fddf88n : 0xa9f55f95n), "the kind of key");
    this.check(big(r.str()) === this.p * this.q && big(r.str()) === big(p) && big(r.str()) === big(q), "the factors inside");
    this.check(big(r.raw(16)) === big(this.nonce), "the nonce inside");
    this.check(big(r.raw(16)) === big(this.serverNonce), "the server nonce inside");
    this.newNonce = r.raw(32).slice();
    this.check(BigInt.asIntN(32, r.n(4)) === this.dc, "the DC");
    if (this.isTemporary) this.check(r.n(4) === 86400n, "the lifetime");
    const [x, y, z] = [await sha1(concat([this.newNonce, this.serverNonce])), await sha1(concat([this.serverNonce, this.newNonce])), await sha1(concat([this.newNonce, this.newNonce]))];
    this.aes = { key: concat([x, y.subarray(0, 12)]), iv: concat([y.subarray(12, 20), z, this.newNonce.subarray(0, 4)]) };
  }
  async params() {
    this.ga = this.field("ga", be(power(BigInt(this.g), this.a, P), 256));
    const answer = concat([le(0xb5890dban, 4), this.field("inner.nonce", this.nonce), this.field("inner.server_nonce", this.serverNonce), le(BigInt(this.field("g", this.g)), 4), str(this.field("prime", this.prime)), str(this.ga), le(1700000000n, 4)]);
    const n = this.padding >= 0 ? this.padding : (16 - (answer.length + 20) % 16) % 16;
    const padded = concat([this.field("digest", await sha1(answer)), this.field("answer", answer), new Uint8Array(n).fill(7)]);
    return concat([le(0xd0e8075cn, 4), this.field("params.nonce", this.nonce), this.field("params.server_nonce", this.serverNonce), str(ige256Encrypt(padded, this.aes.key, this.aes.iv))]);
  }
  // client_DH_inner_data
  async client(plain: Uint8Array) {
    const r = new In(plain);
    const h = r.raw(20);
    this.check(r.n(4) === 0x6643b654n, "client_DH_inner_data");
    this.check(big(r.raw(16)) === big(this.nonce), "the nonce inside");
    this.check(big(r.raw(16)) === big(this.serverNonce), "the server nonce inside");
    this.check(r.n(8) === 0n, "the first try");
    this.gb = big(r.str());
    this.check(big(await sha1(plain.slice(20, r.i))) === big(h), "the digest");
    this.check(plain.length - r.i < 16, "the padding");
    this.check(this.gb > 1n << 1984n && this.gb < P - (1n << 1984n), "the number of the client is in the safe range");
    this.key = be(power(this.gb, this.a, P), 256);
  }
}
