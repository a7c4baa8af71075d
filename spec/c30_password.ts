// C30: the proof of a password is the one that a server with the verifier of that password computes, and of no other password.
import * as G from "./ghost.ts";
import { checkPassword } from "file:///repo/client/0_password.ts";
import { concat } from "file:///repo/0_deps.ts";
import { be, big, P, power, start } from "./authserver.ts";
import { digest } from "./server.ts";

const utf8 = (s: string) => new TextEncoder().encode(s);
const sh = (data: Uint8Array, salt: Uint8Array) => digest(concat([salt, data, salt]));
async function secret(password: string, salt1: Uint8Array, salt2: Uint8Array) {
  const first = await sh(await sh(utf8(password), salt1), salt2);
  const k = await crypto.subtle.importKey("raw", first as any, "PBKDF2", false, ["deriveBits"]);
  const r = new Uint8Array(await crypto.subtle.deriveBits({ name: "PBKDF2", salt: salt1 as any, iterations: 100000, hash: "SHA-512" }, k, 512));
  return big(await sh(r, salt2));
}
// the server, which has the verifier only
class Verifier {
  g = 3;
  b = 3001n;
  salt1 = Uint8Array.from([1, 2, 3, 4, 5, 6, 7, 8, 200]);
  salt2 = Uint8Array.from([9, 8, 7, 200, 5, 4, 3, 2, 1]);
  v: any;
  B: any;
  k: any;
  async set(password: string) {
    this.v = power(BigInt(this.g), await secret(password, this.salt1, this.salt2), P);
    this.k = big(await digest(concat([be(P, 256), be(BigInt(this.g), 256)])));
    this.B = (this.k * this.v + power(BigInt(this.g), this.b, P)) % P;
  }
  // what is told to the client
  account(more: any = {}, algo: any = {}): any {
    return { _: "account.password", current_algo: { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: this.salt1, salt2: this.salt2, g: this.g, p: be(P, 256), ...algo }, srp_B: be(this.B, this.length), srp_id: 123456789012345n, ...more };
  }
  length = 256;
  async accepts(r: any) {
    const A = big(r.A);
    if (r.A.length !== 256 || A <= 1n << 1984n || A >= P - (1n << 1984n)) return false;
    const u = big(await digest(concat([be(A, 256), be(this.B, 256)])));
    const s = power(A * power(this.v, u, P) % P, this.b, P);
    const hp = await digest(be(P, 256)), hg = await digest(be(BigInt(this.g), 256));
    const m = await digest(concat([hp.map((x, i) => x ^ hg[i]), await digest(this.salt1), await digest(this.salt2), be(A, 256), be(this.B, 256), await digest(be(s, 256))]));
    return big(m) === big(r.M1);
  }
}
export async function proof() {
  G.setNow(1700000000000);
  const i = G.choose(7);
  start(i === 1 ? [5, 600, 2003] : i === 2 ? [2197] : [2001], 1);
  const s = new Verifier();
  if (i === 0 || i === 1) s.g = [3, 4, 5, 7][G.choose(4)];
  if (i === 3) s.salt1 = new Uint8Array(0);
  if (i === 4) s.salt2 = new Uint8Array(0), s.salt1 = new Uint8Array(40).fill(255);
  const password = i === 5 ? "" : i === 6 ? "пароль🔑 " : "secret";
  await s.set(password);
  const r = await checkPassword(password, s.account());
  G.assert(r._ === "inputCheckPasswordSRP" && r.srp_id === 123456789012345n, "it is for what the server asked");
  G.assert(await s.accepts(r), "the server accepts it");
}
// numbers of the server with leading zeros, sent with or without them
export async function short_numbers() {
  G.setNow(1700000000000);
  start([2001], 1);
  const s = new Verifier();
  s.b = 3004n;
  await s.set("secret");
  if (G.choose(2) === 1) s.length = 255;
  G.assert(s.B < 1n << 2040n && await s.accepts(await checkPassword("secret", s.account())), "the server accepts it");
}
export async function other_password() {
  G.setNow(1700000000000);
  start([2001], 1);
  const s = new Verifier();
  await s.set("secret");
  const other = ["Secret", "secret ", "", "secre", "пароль"][G.choose(5)];
  G.assert(!await s.accepts(await checkPassword(other, s.account())), "the server does not accept it");
}
// Nothing is computed in a group, with an algorithm or with a number that is not good.
export async function refused() {
  G.setNow(1700000000000);
  start([2001], 1);
  const s = new Verifier();
  s.v = 5n, s.B = 1n << 2040n;
  const p = be(P, 256);
  let account = s.account();
  const how = G.choose(6);
  if (how === 0) p[[0, 100, 255][G.choose(3)]] ^= 2, account = s.account({}, { p });
  if (how === 1) account = s.account({}, { p: [p.slice(0, 255), Uint8Array.from([...p, 1]), Uint8Array.from([0, ...p]), Uint8Array.from([7])][G.choose(4)] });
  if (how === 2) account = s.account({}, { g: [0, 1, 2, 6, 8, -3][G.choose(6)] });
  if (how === 3) account = s.account({ current_algo: G.choose(2) === 0 ? { _: "passwordKdfAlgoUnknown" } : undefined });
  if (how === 4) account = s.account(G.choose(2) === 0 ? { srp_B: undefined } : { srp_id: undefined });
  if (how === 5) account = s.account({ srp_B: be([0n, P, P + 5n, (1n << 2048n) - 1n][G.choose(4)], 256) });
  let r;
  try {
    r = await checkPassword("secret", account);
  } catch {}
  G.assert(r === undefined, "nothing is proved to it");
}
