// C04: the arithmetic the handshake relies on: modular powers, greatest common divisors, residues, factorisation.
import * as G from "./ghost.ts";
import { gcd, mod, modExp } from "file:///repo/utilities/0_int.ts";
import { factorize } from "file:///repo/utilities/1_math.ts";

export function modular_power() {
  // P(r, x, e) stands for r * x^e mod n; the laws below are its definition by repeated squaring
  const n = G.big(2n);
  const a = G.big(0n), b = G.big(0n);
  if (!G.symbolic) {
    let p = 1n;
    let e = b;
    const small = b % 60n;
    for (let i = 0n; i < small; i++) p = p * a;
    G.assert(modExp(a, small, n) === p % n, "the result is the power modulo n");
    // exponents add
    e = b % (1n << 96n);
    const f = a % (1n << 40n);
    G.assert(modExp(a, e + f, n) === modExp(a, e, n) * modExp(a, f, n) % n, "exponents add");
    return;
  }
  const P = G.fn("powmod");
  G.axiom(G.forall(undefined, undefined, (r) => G.forall(undefined, undefined, (x) => G.forall(undefined, undefined, (e) => G.implies(e > 0n, P(r, x, e) === (e % 2n === 0n ? P(r, (x * x) % n, e / 2n) : P((r * x) % n, (x * x) % n, e / 2n)))))), "r*x^e mod n = r*(x*x)^(e/2) mod n, times x when e is odd");
  G.axiom(G.forall(undefined, undefined, (r) => G.forall(undefined, undefined, (x) => G.implies(G.and(0n <= r, r < n), P(r, x, 0n) === r))), "r*x^0 mod n = r for 0 <= r < n");
  G.inv((result: bigint, x: bigint, b: bigint) => P(result, x, b) === P(1n, A, B0));
  G.inv((result: bigint) => G.and(0n <= result, result < n));
  const A = a % n, B0 = b;
  const v = modExp(a, b, n);
  G.assert(v === P(1n, A, B0), "the result is the power modulo n");
  G.assert(0n <= v && v < n, "the result is a residue");
}
export function greatest_common_divisor() {
  const a = G.big(0n), b = G.big(0n);
  if (!G.symbolic) {
    const g = gcd(a, b);
    if (a === 0n && b === 0n) return;
    G.assert(a % g === 0n && b % g === 0n, "it divides both");
    // Bezout: the divisor is a combination of both, hence the greatest
    let [x, y, u, v, s, t] = [a, b, 1n, 0n, 0n, 1n];
    while (y !== 0n) {
      const q = x / y;
      [x, y] = [y, x - q * y];
      [u, s] = [s, u - q * s];
      [v, t] = [t, v - q * t];
    }
    G.assert(u * a + v * b === g, "it is the greatest one");
    return;
  }
  const D = G.fn("gcd");
  G.axiom(G.forall(undefined, undefined, (x) => G.forall(undefined, undefined, (y) => G.implies(y > 0n, D(x, y) === D(y, x % y)))), "gcd(x, y) = gcd(y, x mod y)");
  G.axiom(G.forall(undefined, undefined, (x) => D(x, 0n) === x), "gcd(x, 0) = x");
  G.inv((a: bigint, b: bigint) => D(a, b) === D(A, B));
  const A = a, B = b;
  G.assert(gcd(a, b) === D(A, B), "the result is the greatest common divisor");
}
export function residues() {
  const m = G.big(1n, 1n << 256n), n = G.big(-(1n << 256n), 1n << 256n);
  const r = mod(n, m);
  G.assert(0n <= r && r < m, "a residue is between zero and the modulus");
  G.assert((n - r) % m === 0n, "a residue is congruent to the number");
  const k = G.int(1, 1 << 20), j = G.int(-(1 << 30), 1 << 30);
  const s = mod(j, k);
  G.assert(0 <= s && s < k && (j - s) % k === 0, "residues of numbers as well");
}
export function factors() {
  // pq of any size for the proof; for execution, products of two primes as in the handshake
  let pq = G.big(4n);
  if (!G.symbolic) {
    const primes = [2n, 3n, 5n, 7n, 101n, 65537n, 1000003n, 2147483647n, 1229739323n, 1402015859n, 4294967291n];
    pq = primes[G.choose(primes.length)] * primes[G.choose(primes.length)];
    if (pq === 2147483647n * 2147483647n || pq < 4n) return;
  }
  let r: [bigint, bigint];
  try {
    r = factorize(pq);
  } catch (e) {
    if (!G.symbolic) throw e;
    return; // giving up (after sixteen attempts) is a refusal, not a wrong answer
  }
  const [p, q] = r;
  G.assert(p * q === pq, "the factors multiply to the number");
  G.assert(1n < p && p <= q, "the factors are proper and ordered");
}
