// C29: an authorization key is the one agreed on with a server that holds the private key, and nothing else is ever taken for one.
import * as G from "./ghost.ts";
import { ClientPlain } from "file:///repo/client/1_client_plain.ts";
import { AuthServer, be, big, FINGERPRINT, P, power, PUBLIC_KEYS, start } from "./authserver.ts";

const NOW = 1700000000000;
async function connected(s: AuthServer, dc = "2", isMedia = false) {
  G.setNow(NOW);
  const client = new ClientPlain(dc as any, { transportProvider: (() => s.connect()) as any, publicKeys: PUBLIC_KEYS, isMedia });
  await client.connect();
  return client;
}
const key = async (c: ClientPlain, temporary = false) => {
  try {
    return await c.createAuthKey(temporary);
  } catch {
    return null;
  }
};
const agreed = (s: AuthServer, r: any) => {
  G.assert(s.wrong.length === 0, "the server finds every request in order");
  G.assert(r !== null && r[0].length === 256 && big(r[0]) === power(power(BigInt(s.g), s.a, P), 0n + exponent, P) && big(r[0]) === big(s.key), "both have the same key, of 256 bytes");
  let salt = 0n;
  for (let i = 7; i >= 0; --i) salt = salt * 256n + BigInt(s.newNonce[i] ^ s.serverNonce[i]);
  G.assert(BigInt.asUintN(64, r[1]) === salt, "and the same first salt");
};
let exponent = 0n;

export async function agreement() {
  const s = new AuthServer();
  const i = G.choose(5);
  // ordinary numbers, a short key, a short number of the client, a short number of the server, a number of the client that is out of range at first
  const [b, bs, a] = [[2001, [2001], 3001], [2022, [2022], 3001], [2197, [2197], 3001], [2001, [2001], 2197], [2003, [5, 600, 2003], 3001]][i] as any;
  exponent = BigInt(b), s.a = BigInt(a);
  start(bs, i === 0 ? G.choose(4) : 1);
  s.g = i === 0 || i === 4 ? [3, 4, 5, 7][G.choose(4)] : 3;
  agreed(s, await key(await connected(s)));
}
export async function kinds() {
  const s = new AuthServer();
  start([2001], 1);
  exponent = 2001n;
  const which = G.choose(4);
  s.isTemporary = G.choose(2) === 1;
  s.dc = [2n, -2n, 10002n, -10002n][which];
  const i = G.choose(4);
  s.serverNonce[15] = [5, 0, 255, 128][i];
  if (i === 2) s.pq_ = be(s.p * s.q, 5);
  agreed(s, await key(await connected(s, which < 2 ? "2" : "2-test", which % 2 === 1), s.isTemporary));
}
const flip = (i: number, d = 1) => (b: Uint8Array) => {
  b = b.slice();
  b[i] = (b[i] + d) % 256;
  return b;
};
// An answer to somebody else's first request is not taken.
export async function first_answer() {
  const s = new AuthServer();
  start([2001], 1);
  exponent = 2001n;
  const bad = G.choose(4), i = bad === 3 ? G.choose(16) : [0, 7, 15][bad], d = G.int(1, 255);
  const times = [1, 2, 9, 10][bad];
  s.edit = { "pq.nonce": (n: any) => s.attempts <= times ? flip(i, d)(n) : n };
  const r = await key(await connected(s));
  if (times < 10) agreed(s, r);
  else G.assert(r === null && s.log.every((x) => x === "req_pq_multi"), "nothing is sent to a server that never answers");
}
// The answers of somebody who does not know the numbers of this exchange are not taken.
export async function other_nonce() {
  const s = new AuthServer();
  start([2001], 1);
  const i = G.choose(16), d = G.int(1, 255);
  const name = ["params.nonce", "params.server_nonce", "gen.nonce", "gen.server_nonce", "gen.hash"][G.choose(5)];
  s.edit = { [name]: flip(i, d) };
  const r = await key(await connected(s));
  G.assert(r === null, "no key comes of it");
  G.assert(name.startsWith("gen") || !s.log.includes("set_client_DH_params"), "and nothing is answered to parameters that are not the server's");
}
export async function other_parameters() {
  const s = new AuthServer();
  start([2001], 0);
  const how = G.choose(7);
  if (how < 2) s.edit = { [["inner.nonce", "inner.server_nonce"][how]]: flip([0, 7, 8, 15][G.choose(4)], [1, 128, 255][G.choose(3)]) };
  if (how === 2) s.edit = { digest: flip([0, 1, 10, 19][G.choose(4)], [1, 128, 255][G.choose(3)]) };
  if (how === 3) s.edit = { answer: flip([4, 36, 50, 299, 400, 559, 560, 563][G.choose(8)], 1) };
  if (how === 4) s.padding = 24 + 16 * G.choose(2);
  if (how === 5) s.edit = { g: () => [0, 1, 2, 6, 8, -3][G.choose(6)] };
  if (how === 6) {
    const b = [0n, 1n, P - 1n, P, P + 3n, 1n << 1900n, 1n << 1980n, P - (1n << 1980n), (1n << 2048n) - 1n][G.choose(9)];
    s.edit = { ga: () => be(b, 256) };
  }
  const r = await key(await connected(s));
  G.assert(r === null && !s.log.includes("set_client_DH_params"), "nothing is answered to parameters that are not good");
}
export async function other_group() {
  const s = new AuthServer();
  start([2001], 0);
  const how = G.choose(5);
  s.edit = {
    prime: (p: Uint8Array) => {
      if (how === 0) return flip([0, 100, 255][G.choose(3)], 2)(p);
      if (how === 1) return p.slice(0, 255);
      if (how === 2) return Uint8Array.from([...p, 1]);
      if (how === 3) return Uint8Array.from([0, ...p]);
      return be(7n, 1);
    },
  };
  const r = await key(await connected(s));
  G.assert(r === null && !s.log.includes("set_client_DH_params"), "nothing is answered in a group that is not the known one");
}
export async function refusals() {
  const s = new AuthServer();
  start([2001], 0);
  s.edit = { "gen.kind": () => 2 + G.choose(2) };
  G.assert(await key(await connected(s)) === null, "there is no key when the server refuses it");
}
// numbers as large as they are in use
export async function large_numbers() {
  const s = new AuthServer();
  const primes = [1229739323n, 1402015859n, 2147483647n, 2147483629n, 4294967291n, 2000000011n];
  const i = G.int(0, 4), j = G.int(i + 1, 5);
  const [x, y] = [primes[i], primes[j]];
  [s.p, s.q] = x < y ? [x, y] : [y, x];
  s.pq_ = be(x * y, 8);
  s.serverNonce = G.bytes(16, 16) as any;
  s.a = (1n << 2047n) + big(G.bytes(255, 255));
  s.g = [3, 4, 5, 7][G.choose(4)];
  const r = await key(await connected(s));
  G.assert(s.wrong.length === 0 && r !== null && big(r[0]) === big(s.key) && r[0].length === 256, "both have the same key");
}
// Only a known public key is used.
export async function public_keys() {
  const s = new AuthServer();
  start([2001], 0);
  exponent = 2001n;
  const how = G.choose(5);
  s.fingerprints = [[], [77n], [77n, 78n, FINGERPRINT + 1n], [FINGERPRINT], [FINGERPRINT, 2n]][how];
  const r = await key(await connected(s));
  if (how >= 3) agreed(s, r);
  else G.assert(r === null && s.log.every((x) => x === "req_pq_multi"), "nothing is sent to a server that has none of the known keys");
}
