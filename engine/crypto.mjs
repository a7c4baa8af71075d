// Cryptography as ideal functions.  A digest, a cipher or a key stream is an unconstrained function of its inputs: equal inputs give
// equal outputs, decryption undoes encryption, and nothing else is assumed.  With plainCrypto (lemmas that are not about cryptography)
// digests are constant and the ciphers do nothing; with plainCrypto "real" everything they are given is known and digests are computed.
// With looseCrypto, inputs that are not provably equal may give any outputs, equal or not, whatever they are: more than can happen, in fewer paths.
import { createHash, pbkdf2Sync } from "node:crypto";
import * as T from "./term.mjs";

const CTR = "xor!keystream";
export function install(I, { fn, gfn, nat, S, N, UNDEF, isBytes }) {
  const tables = { ideal: [], ige: [], keys: [] };
  const snap = (v) => {
    if (v.o.tag === "buf") return { len: v.o.len, sel: v.o.data.v.sel };
    return { len: v.o.len, sel: I.bytesSel(v.o) };
  };
  const same = (a, b) => {
    if (a.sel === undefined) return a === b ? T.TRUE : a.op ? T.eq(a, b) : T.FALSE;
    const le = T.eq(a.len, b.len);
    if (le === T.FALSE) return T.FALSE;
    if (a.len.op === "num" && a.len.c <= 64n) {
      const es = [];
      for (let i = 0n; i < a.len.c; i++) es.push(T.eq(I.simp(a.sel(T.num(i))), I.simp(b.sel(T.num(i)))));
      return T.and(le, ...es);
    }
    const q = T.freshBound();
    const body = T.eq(a.sel(q), b.sel(q));
    if (body === T.TRUE) return le;
    return T.and(le, T.forall([q], T.implies(T.and(T.le(T.ZERO, q), T.lt(q, a.len)), body)));
  };
  const decideSame = (as, bs, node) => {
    for (let i = 0; i < as.length; i++) {
      const t = same(as[i], bs[i]);
      if (t === T.FALSE) return false;
      if (t !== T.TRUE && !(I.opts.looseCrypto ? I.entailed(t, node) : I.decide(t, node))) return false;
    }
    return true;
  };
  const fresh = (len, nm, node) => {
    const f = T.freshFn(nm, 1, "Int", 0n, 255n);
    return { len, sel: (i) => T.app(f, [i]) };
  };
  const out = (s, node) => I.newBytes(s.len, s.sel, node);
  const ideal = (tag, args, len, node) => {
    for (const e of tables.ideal.toReversed()) if (e.tag === tag && e.args.length === args.length && decideSame(e.args, args, node)) return e.out;
    const r = fresh(T.num(len), tag, node);
    tables.ideal.push({ tag, args, out: r });
    return r;
  };
  const buffer = (s, node) => ({ k: "obj", o: I.newBuf(s.len, s.sel, node) });
  const alg = (a) => a.k === "str" ? a.lit : a.o.fields.get("name").v.lit;
  const SIZE = { "SHA-1": 20, "SHA-256": 32, "SHA-512": 64, MD5: 16 };
  const keyId = (k, node) => {
    const s = snap(k);
    for (const [i, e] of tables.keys.entries()) if (decideSame([e], [s], node)) return i;
    tables.keys.push(s);
    return tables.keys.length - 1;
  };
  const ks = () => T.declFn(CTR, 4, "Int", 0n, 255n);
  // the key stream is combined by an involution
  const comb = (k, block, j, b) => {
    if (b.op === "app" && b.fn.name === CTR && b.args[0] === k && b.args[1] === block && b.args[2] === j) return b.args[3];
    if (b.op === "app" && b.fn.name === CTR && b.args[0] === k) return T.ite(T.and(T.eq(b.args[1], block), T.eq(b.args[2], j)), b.args[3], T.app(ks(), [k, block, j, b]));
    if (b.op === "ite" && T.mentions(b, CTR)) return T.ite(b.args[0], comb(k, block, j, b.args[1]), comb(k, block, j, b.args[2]));
    return T.app(ks(), [k, block, j, b]);
  };
  // what is known of bytes that are all known
  const known = (d, node) => {
    const x = snap(d);
    if (x.len.op !== "num") I.oof(node, "digest of unknown length");
    const bytes = new Uint8Array(Number(x.len.c));
    for (let i = 0; i < bytes.length; i++) {
      const t = I.simp(x.sel(T.num(i)));
      if (t.op !== "num") I.oof(node, "digest of unknown bytes");
      bytes[i] = Number(t.c);
    }
    return bytes;
  };
  const bytesOf = (r) => {
    const terms = [...r].map((b) => T.num(b));
    return { len: T.num(r.length), sel: (i) => i.op === "num" ? terms[Number(i.c)] ?? T.ZERO : terms.reduceRight((e, t, j) => T.ite(T.eq(i, T.num(j)), t, e), T.ZERO) };
  };
  const subtle = {
    digest: fn("digest", (s, [a, d], node) => {
      const n = SIZE[alg(a)] ?? I.oof(node, "digest " + alg(a));
      if (I.opts.plainCrypto === "real") {
        return I.toPromise(buffer(bytesOf(createHash(alg(a).toLowerCase().replace("sha-", "sha")).update(known(d, node)).digest()), node), node);
      }
      if (I.opts.plainCrypto) return I.toPromise(buffer({ len: T.num(n), sel: () => T.ZERO }, node), node);
      return I.toPromise(buffer(ideal(alg(a), [snap(d)], n, node), node), node);
    }),
    importKey: fn("importKey", (s, [fmt, key, a], node) => {
      const o = I.newObj("cryptokey", node);
      o.bytes = out(snap(key), node);
      return I.toPromise({ k: "obj", o }, node);
    }),
    sign: fn("sign", (s, [a, key, d], node) => I.toPromise(buffer(ideal("HMAC", [snap(key.o.bytes), snap(d)], 32, node), node), node)),
    deriveBits: fn("deriveBits", (s, [a, key, n], node) => {
      if (I.opts.plainCrypto !== "real" || alg(a) !== "PBKDF2") I.oof(node, "deriveBits");
      const f = (k) => a.o.fields.get(k).v;
      const hash = alg(f("hash")).toLowerCase().replace("-", "");
      const r = pbkdf2Sync(known(key.o.bytes, node), known(f("salt"), node), Number(f("iterations").t.c), Number(n.t.c) / 8, hash);
      return I.toPromise(buffer(bytesOf(r), node), node);
    }),
    encrypt: fn("encrypt", (s, [a, key, d], node) => {
      if (alg(a) !== "AES-CTR") I.oof(node, "encrypt " + alg(a));
      const width = a.o.fields.get("length").v.t, ctr = a.o.fields.get("counter").v;
      if (width.op !== "num" || width.c !== 128n || snap(ctr).len !== T.num(16)) I.oof(node, "AES-CTR parameters");
      const c = snap(ctr);
      const parts = [];
      for (let i = 0; i < 16; i++) parts.push(T.scale(I.simp(c.sel(T.num(i))), 1n << BigInt(8 * (15 - i))));
      const C = T.add(...parts);
      const k = T.num(keyId(key.o.bytes, node));
      const x = snap(d);
      const r = { len: x.len, sel: (i) => comb(k, T.ext(T.add(C, T.ext(i, 4, null)), 0, 128), T.ext(i, 0, 4), x.sel(i)) };
      return I.toPromise(buffer(r, node), node);
    }),
  };
  const ige = (dir) => gfn(dir, function* (s, [d, k, v], node) {
    const [D, K, V] = [d, k, v].map(snap);
    const bad = T.or(T.eq(D.len, T.ZERO), T.not(T.eq(T.mod(D.len, T.num(16)), T.ZERO)), T.not(T.eq(K.len, T.num(32))), T.not(T.eq(V.len, T.num(32))));
    if (bad === T.TRUE || bad !== T.FALSE && I.decide(bad, node)) I.throwErr("TypeError", "invalid argument for AES-IGE", node);
    if (I.opts.plainCrypto) return out(D, node);
    const [from, to] = dir === "ige256Encrypt" ? ["plain", "cipher"] : ["cipher", "plain"];
    for (const e of tables.ige.toReversed()) if (decideSame([e.key, e.iv, e[from]], [K, V, D], node)) return out(e[to], node);
    const r = fresh(D.len, dir, node);
    tables.ige.push({ key: K, iv: V, [from]: D, [to]: r });
    return out(r, node);
  });
  const tg = {
    init: fn("init", (s, a, node) => I.toPromise(UNDEF, node)),
    ige256Encrypt: ige("ige256Encrypt"),
    ige256Decrypt: ige("ige256Decrypt"),
  };
  return { subtle, tg };
}
