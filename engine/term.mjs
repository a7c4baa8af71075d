// Terms over Int and Bool with a simplifier that keeps byte/bit arithmetic in a canonical linear form.
// Everything printed goes to an SMT solver; the simplifier is part of the trusted base (it is cross-checked
// by bin/selftest.mjs, which asks the solver to confirm random rewrites).

let uid = 0;
const table = new Map(); // hash-consing
function mk(op, sort, args, extra) {
  let key = op + "(" + args.map((a) => a.id).join(",") + ")" + (extra === undefined ? "" : ":" + extra);
  let t = table.get(key);
  if (!t) {
    t = { id: ++uid, op, sort, args, extra, lo: null, hi: null };
    table.set(key, t);
  }
  return t;
}
export const TRUE = mk("true", "Bool", []);
export const FALSE = mk("false", "Bool", []);
export const bool = (b) => b ? TRUE : FALSE;

// ---------- functions and variables ----------
export const fns = new Map(); // name -> {name, arity, sort, lo, hi}
export function declFn(name, arity, sort = "Int", lo = null, hi = null) {
  const f = { name, arity, sort, lo, hi };
  fns.set(name, f);
  return f;
}
let freshN = 0;
export function resetFresh() {
  freshN = 0;
}
export function freshName(p) {
  return p.replace(/[^A-Za-z0-9_]/g, "_") + "!" + (freshN++);
}
export function freshFn(prefix, arity, sort = "Int", lo = null, hi = null) {
  // names are reused across re-executions (resetFresh), so the declaration must be refreshed too
  const name = freshName(prefix);
  return declFn(name + (sort === "Bool" ? "b" : "") + (arity || "") + (lo !== null || hi !== null ? "r" + String(lo).replace("-", "m") + "_" + String(hi).replace("-", "m") : ""), arity, sort, lo, hi);
}
export function app(f, args) {
  const t = mk("app", f.sort, args, f.name);
  t.fn = f;
  if (f.sort === "Int") {
    t.lo = f.lo;
    t.hi = f.hi;
  }
  return t;
}
export function freshVar(prefix, sort = "Int", lo = null, hi = null) {
  return app(freshFn(prefix, 0, sort, lo, hi), []);
}
export function boundVar(n) {
  return mk("bv", "Int", [], n);
}
let bvN = 0;
export const freshBound = () => boundVar("q" + (bvN++));

// ---------- Int: canonical linear forms ----------
const small = [];
export function num(c) {
  if (typeof c === "number" ? c >= 0 && c < 4096 : c >= 0n && c < 4096n) return small[c] ??= mkNum(BigInt(c));
  return mkNum(BigInt(c));
}
function mkNum(c) {
  const t = mk("num", "Int", [], c.toString());
  t.c = c;
  t.lo = t.hi = c;
  return t;
}
export const ZERO = num(0), ONE = num(1);
// a linear form is {c, m: Map(atom -> coef)}
function toLin(t) {
  if (t.op === "num") return { c: t.c, m: new Map() };
  if (t.op === "lin") return { c: t.c, m: t.m };
  return { c: 0n, m: new Map([[t, 1n]]) };
}
function fromLin(c, m) {
  if (m.size === 0) return num(c);
  let es = [...m.entries()].filter((e) => e[1] !== 0n);
  if (es.length > 1) {
    const merged = mergeExt(es);
    if (merged) return fromLin(c + merged.c, merged.m);
  }
  if (es.length === 0) return num(c);
  if (c === 0n && es.length === 1 && es[0][1] === 1n) return es[0][0];
  es.sort((a, b) => a[0].id - b[0].id);
  const t = mk("lin", "Int", es.map((e) => e[0]), c + ";" + es.map((e) => e[1]).join(","));
  if (!t.m) {
    t.c = c;
    t.m = new Map(es);
    let lo = c, hi = c;
    for (const [a, k] of es) {
      const [al, ah] = k > 0n ? [a.lo, a.hi] : [a.hi, a.lo];
      lo = lo === null || al === null ? null : lo + k * al;
      hi = hi === null || ah === null ? null : hi + k * ah;
    }
    t.lo = lo;
    t.hi = hi;
  }
  return t;
}
// c*ext(v,lo,n) + c*2^n*ext(v,lo+n,m) -> c*ext(v,lo,n+m)
function mergeExt(es) {
  const by = new Map();
  for (const [a, k] of es) {
    if (a.op === "ext") {
      let l = by.get(a.args[0]);
      if (!l) by.set(a.args[0], l = []);
      l.push([a, k]);
    }
  }
  // c*v - c*ext(v,0,w) -> c*2^w*ext(v,w)
  for (const [v, l] of by) {
    if (v.op === "lin") continue;
    for (const [a, k] of l) {
      if (a.sh !== 0 || a.w === null) continue;
      const kv = es.find((e) => e[0] === v)?.[1];
      if (kv === undefined || kv !== -k) continue;
      const m = new Map(es);
      m.delete(a);
      m.delete(v);
      const r = addInto(m, ext(v, a.w, null), kv << BigInt(a.w));
      return { c: r, m };
    }
  }
  for (const l of by.values()) {
    if (l.length < 2) continue;
    for (const [a, k] of l) {
      if (a.w === null) continue;
      for (const [b, kb] of l) {
        if (b !== a && b.sh === a.sh + a.w && kb === k << BigInt(a.w)) {
          const m = new Map(es);
          m.delete(a);
          m.delete(b);
          const nt = ext(a.args[0], a.sh, b.w === null ? null : a.w + b.w);
          const r = addInto(m, nt, k);
          return { c: r, m };
        }
      }
    }
  }
  // c*2^k*ext(v,k,null) + c*ext(v,0,k) -> c*v
  return null;
}
function addInto(m, t, k) {
  const l = toLin(t);
  for (const [a, c] of l.m) {
    const n = (m.get(a) ?? 0n) + c * k;
    if (n === 0n) m.delete(a);
    else m.set(a, n);
  }
  return l.c * k;
}
export function add(...ts) {
  let c = 0n;
  if (ts.every((t) => t.op === "num")) {
    for (const t of ts) c += t.c;
    return num(c);
  }
  if (ts.length === 2) {
    if (ts[0] === ZERO) return ts[1];
    if (ts[1] === ZERO) return ts[0];
  }
  const m = new Map();
  for (const t of ts) c += addInto(m, t, 1n);
  return fromLin(c, m);
}
export function scale(t, k) {
  k = BigInt(k);
  if (t.op === "num") return num(t.c * k);
  if (k === 1n) return t;
  const m = new Map();
  const c = addInto(m, t, k);
  return fromLin(c, m);
}
export const neg = (t) => scale(t, -1n);
export const sub = (a, b) => add(a, neg(b));
export function mul(a, b) {
  if (a.op === "num") return scale(b, a.c);
  if (b.op === "num") return scale(a, b.c);
  if (a.op === "ite" && a.args[1].op === "num" && a.args[2].op === "num") return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b));
  if (b.op === "ite" && b.args[1].op === "num" && b.args[2].op === "num") return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]));
  // distribute over linear forms so nonlinear monomials are canonical
  const la = toLin(a), lb = toLin(b);
  if (la.m.size + lb.m.size <= 8) {
    const m = new Map();
    let c = la.c * lb.c;
    for (const [x, k] of la.m) addInto(m, x, k * lb.c);
    for (const [y, k] of lb.m) addInto(m, y, k * la.c);
    for (const [x, k] of la.m) for (const [y, q] of lb.m) addInto(m, monomial(x, y), k * q);
    return fromLin(c, m);
  }
  return monomial(a, b);
}
function monomial(x, y) {
  const fs = [...(x.op === "mul" ? x.args : [x]), ...(y.op === "mul" ? y.args : [y])].sort((p, q) => p.id - q.id);
  const t = mk("mul", "Int", fs);
  const nonneg = fs.every((f) => f.lo !== null && f.lo >= 0n);
  if (nonneg) {
    t.lo = fs.reduce((p, f) => p * f.lo, 1n);
    t.hi = fs.every((f) => f.hi !== null) ? fs.reduce((p, f) => p * f.hi, 1n) : null;
  } else if (fs.length === 2 && fs[0] === fs[1]) t.lo = 0n;
  return t;
}
const pow2 = (n) => 1n << BigInt(n);
const fdiv = (a, b) => {
  let q = a / b;
  if (a % b !== 0n && (a < 0n) !== (b < 0n)) q--;
  return q;
};
const fmod = (a, b) => a - b * fdiv(a, b);

// ext(v, sh, w) = floor(v / 2^sh) mod 2^w      (w null: no modulus)
export function ext(v, sh, w) {
  if (w === 0) return ZERO;
  if (v.op === "num") {
    const q = v.c >> BigInt(sh);
    return num(w === null ? q : fmod(q, pow2(w)));
  }
  if (sh === 0 && w === null) return v;
  if (v.lo !== null && v.hi !== null && v.lo >= 0n) {
    if (v.hi < pow2(sh)) return ZERO;
    if (w !== null && v.hi < pow2(sh + w)) return ext(v, sh, null);
  }
  if (v.op === "ite" && (v.args[1].op === "num" || v.args[2].op === "num" || iteDepth(v) <= 3)) {
    return ite(v.args[0], ext(v.args[1], sh, w), ext(v.args[2], sh, w));
  }
  if (v.op === "ext") {
    // inner: floor(x/2^a) mod 2^n ; outer shift sh width w
    const n = v.w, a = v.sh;
    if (n === null) return ext(v.args[0], a + sh, w);
    if (sh >= n) return ZERO;
    const nw = w === null ? n - sh : Math.min(w, n - sh);
    return ext(v.args[0], a + sh, nw);
  }
  if (v.op === "lin") {
    // split into high part (multiples of 2^sh) and low rest
    const S = pow2(sh);
    if (w !== null) {
      // drop multiples of 2^(sh+w)
      const M = pow2(sh + w);
      let drop = false;
      const m = new Map();
      for (const [a, k] of v.m) {
        if (k % M === 0n) drop = true;
        else {
          // reduce the coefficient modulo M symmetrically only when it is large
          m.set(a, k);
        }
      }
      let c = v.c;
      if (fmod(c, M) !== c && (c >= M || c < 0n)) {
        // constant part reduced modulo M
        const c2 = fmod(c, M);
        if (c2 !== c) {
          drop = true;
          c = c2;
        }
      }
      if (drop) return ext(fromLin(c, m), sh, w);
    }
    // greedy: low part = atoms whose running upper bound keeps below 2^sh
    const hiM = new Map(), loM = new Map();
    for (const [a, k] of v.m) (k % S === 0n ? hiM : loM).set(a, k);
    const cHi = fdiv(v.c, S), cLo = fmod(v.c, S);
    const low = fromLin(cLo, loM);
    if (sh > 0 && (hiM.size > 0 || cHi !== 0n) && low.lo !== null && low.hi !== null && low.lo >= 0n && low.hi < S) {
      const h = new Map();
      for (const [a, k] of hiM) h.set(a, k / S);
      return ext(fromLin(cHi, h), 0, w);
    }
    // common power-of-two factor of everything
    if (sh > 0) {
      let g = sh;
      for (const k of v.m.values()) {
        let z = 0;
        while (z < g && (k >> BigInt(z)) % 2n === 0n) z++;
        g = Math.min(g, z);
      }
      if (g > 0) {
        const m = new Map();
        const G = pow2(g);
        for (const [a, k] of v.m) m.set(a, k / G);
        return ext(fromLin(fdiv(v.c, G), m), sh - g, w);
      }
    }
    // v = 2^j*u + r with r a constant below 2^j
    if (sh === 0 && w !== null) {
      let j = w;
      for (const k of v.m.values()) {
        let z = 0;
        while (z < j && (k >> BigInt(z)) % 2n === 0n) z++;
        j = Math.min(j, z);
      }
      if (j > 0) {
        const P = pow2(j);
        const u = fromLin(fdiv(v.c, P), new Map([...v.m].map(([a, k]) => [a, k / P])));
        return add(scale(ext(u, 0, w - j), P), num(fmod(v.c, P)));
      }
    }
    // shift 0, width w: low part below some 2^p and everything else a multiple of 2^p, w <= p
    if (sh === 0 && w !== null) {
      const M = pow2(w);
      const keep = new Map();
      let dropped = false;
      for (const [a, k] of v.m) {
        if (k % M === 0n) dropped = true;
        else keep.set(a, k);
      }
      if (dropped) return ext(fromLin(v.c, keep), 0, w);
    } else if (sh > 0) {
      // take as "low" every atom whose coefficient is < 2^sh; high = the others when multiples of some 2^p >= bound(low)
      // try to split at p<sh: v = 2^p*H + L with 0<=L<2^p  =>  ext(v,sh,w)=ext(H,sh-p,w)
      const ks = [...new Set([...v.m.values()].map((k) => k < 0n ? -k : k))].sort((x, y) => x < y ? 1 : -1);
      for (const k0 of ks) {
        let p = 0;
        while (p <= sh && k0 % pow2(p + 1) === 0n) p++;
        if (p === 0 || p > sh) continue;
        const P = pow2(p);
        const h = new Map(), l = new Map();
        for (const [a, k] of v.m) (k % P === 0n ? h : l).set(a, k);
        if (l.size === 0 || h.size === 0) continue;
        const L = fromLin(fmod(v.c, P), l);
        if (L.lo !== null && L.hi !== null && L.lo >= 0n && L.hi < P) {
          const hh = new Map();
          for (const [a, k] of h) hh.set(a, k / P);
          return ext(fromLin(fdiv(v.c, P), hh), sh - p, w);
        }
      }
    }
  }
  const t = mk("ext", "Int", [v], sh + "," + w);
  t.sh = sh;
  t.w = w;
  if (w !== null) {
    t.lo = 0n;
    t.hi = pow2(w) - 1n;
  } else {
    t.lo = v.lo === null ? null : fdiv(v.lo, pow2(sh));
    t.hi = v.hi === null ? null : fdiv(v.hi, pow2(sh));
  }
  return t;
}
function iteDepth(t) {
  return t.op === "ite" ? 1 + Math.max(iteDepth(t.args[1]), iteDepth(t.args[2])) : 0;
}
const log2 = (c) => {
  if (c <= 0n) return -1;
  let n = 0;
  while ((1n << BigInt(n)) < c) n++;
  return (1n << BigInt(n)) === c ? n : -1;
};
// floor division / modulus; divisor positive is the caller's business when symbolic
export function div(a, b) {
  if (b.op === "num") {
    if (b.c === 1n) return a;
    if (b.c === 0n) return app(declFn("div!by!zero", 1), [a]);
    if (b.c < 0n) return div(neg(a), num(-b.c)); // floor(a/b) = floor(-a/-b)
    const p = log2(b.c);
    if (p >= 0) return ext(a, p, null);
    if (a.op === "num") return num(fdiv(a.c, b.c));
    if (a.lo !== null && a.hi !== null && a.lo >= 0n && a.hi < b.c) return ZERO;
    if (a.op === "lin") {
      const h = new Map(), l = new Map();
      for (const [x, k] of a.m) (k % b.c === 0n ? h : l).set(x, k / (k % b.c === 0n ? b.c : 1n));
      if (h.size) return add(fromLin(fdiv(a.c, b.c), h), div(fromLin(fmod(a.c, b.c), l), b));
    }
  }
  if (a.op === "num" && a.c === 0n) return ZERO;
  const t = mk("div", "Int", [a, b]);
  if (a.lo !== null && a.lo >= 0n && b.lo !== null && b.lo > 0n) {
    t.lo = 0n;
    t.hi = a.hi === null ? null : a.hi / b.lo;
  }
  return t;
}
export function mod(a, b) {
  if (b.op === "num") {
    const B = b.c < 0n ? -b.c : b.c;
    if (B === 0n) return app(declFn("mod!by!zero", 1), [a]);
    if (B === 1n) return ZERO;
    const p = log2(B);
    if (p >= 0) return ext(a, 0, p);
    if (a.op === "num") return num(fmod(a.c, B));
    if (a.lo !== null && a.hi !== null && a.lo >= 0n && a.hi < B) return a;
    if (a.op === "lin") {
      const l = new Map();
      let drop = false;
      for (const [x, k] of a.m) {
        const r = fmod(k, B);
        if (r !== k) drop = true;
        if (r !== 0n) l.set(x, r);
      }
      const c = fmod(a.c, B);
      if (drop || c !== a.c) return mod(fromLin(c, l), b);
    }
    const t = mk("mod", "Int", [a, b]);
    t.lo = 0n;
    t.hi = B - 1n;
    return t;
  }
  if (a.op === "num" && a.c === 0n) return ZERO;
  const t = mk("mod", "Int", [a, b]);
  t.lo = 0n;
  t.hi = b.lo !== null && b.lo > 0n && b.hi !== null ? b.hi - 1n : null;
  return t;
}
export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (c.op === "not") return ite(c.args[0], b, a);
  if (a.sort === "Bool") {
    return or(and(c, a), and(not(c), b));
  }
  if (a.op === "ite" && a.args[0] === c) a = a.args[1];
  if (b.op === "ite" && b.args[0] === c) b = b.args[2];
  if (a === b) return a;
  // two's complement decoding of a number that is in range
  if (c.op === "le0" && b.op === "ext" && b.sh === 0 && b.w !== null && a.op === "lin" && a.m.size === 1 && a.m.get(b) === 1n && a.c === -pow2(b.w)) {
    const v = b.args[0], half = pow2(b.w - 1);
    if (v.lo !== null && v.hi !== null && v.lo >= -half && v.hi < half && c === le0(sub(num(half), b))) return v;
  }
  const t = mk("ite", "Int", [c, a, b]);
  t.lo = a.lo === null || b.lo === null ? null : a.lo < b.lo ? a.lo : b.lo;
  t.hi = a.hi === null || b.hi === null ? null : a.hi > b.hi ? a.hi : b.hi;
  return t;
}
// ---------- Bool ----------
export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  if (a.op === "le0") return le0(add(neg(a.args[0]), ONE)); // not(x<=0) = 1-x<=0
  return mk("not", "Bool", [a]);
}
export function and(...as) {
  const s = new Set();
  for (const a of as) {
    if (a === FALSE) return FALSE;
    if (a === TRUE) continue;
    if (a.op === "and") a.args.forEach((x) => s.add(x));
    else s.add(a);
  }
  for (const a of s) if (s.has(not(a))) return FALSE;
  const l = [...s];
  return l.length === 0 ? TRUE : l.length === 1 ? l[0] : mk("and", "Bool", l);
}
export function or(...as) {
  const s = new Set();
  for (const a of as) {
    if (a === TRUE) return TRUE;
    if (a === FALSE) continue;
    if (a.op === "or") a.args.forEach((x) => s.add(x));
    else s.add(a);
  }
  for (const a of s) if (s.has(not(a))) return TRUE;
  const l = [...s];
  return l.length === 0 ? FALSE : l.length === 1 ? l[0] : mk("or", "Bool", l);
}
export const implies = (a, b) => or(not(a), b);
export const iff = (a, b) => a === b ? TRUE : a.op === "true" ? b : b.op === "true" ? a : a.op === "false" ? not(b) : b.op === "false" ? not(a) : mk("iff", "Bool", [a, b]);
function le0(x) {
  if (x.hi !== null && x.hi <= 0n) return TRUE;
  if (x.lo !== null && x.lo > 0n) return FALSE;
  if (x.op === "ite") return ite(x.args[0], le0(x.args[1]), le0(x.args[2]));
  if (x.op === "lin") {
    let g = 0n;
    for (const k of x.m.values()) g = gcd(g, k);
    if (g > 1n) {
      const m = new Map();
      for (const [a, k] of x.m) m.set(a, k / g);
      // sum*g + c <= 0  <=>  sum <= floor(-c/g)
      return le0(fromLin(-fdiv(-x.c, g), m));
    }
    // a lone constant-branch ite inside: keep as is
  }
  return mk("le0", "Bool", [x]);
}
const gcd = (a, b) => {
  a = a < 0n ? -a : a;
  b = b < 0n ? -b : b;
  while (b) [a, b] = [b, a % b];
  return a;
};
export const le = (a, b) => le0(sub(a, b));
export const lt = (a, b) => le0(add(sub(a, b), ONE));
export const ge = (a, b) => le(b, a);
export const gt = (a, b) => lt(b, a);
export function eq(a, b) {
  if (a === b) return TRUE;
  if (a.sort === "Bool") return iff(a, b);
  if (a.op === "ite" && a.args[1].op === "num" && a.args[2].op === "num" && b.op === "num") {
    return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
  }
  if (b.op === "ite" && a.op === "num") return eq(b, a);
  const d = sub(a, b);
  if (d.op === "num") return bool(d.c === 0n);
  if ((d.lo !== null && d.lo > 0n) || (d.hi !== null && d.hi < 0n)) return FALSE;
  if (d.op === "ite" && iteDepth(d) <= 2) {
    return ite(d.args[0], eq(d.args[1], ZERO), eq(d.args[2], ZERO));
  }
  if (d.op === "lin") {
    let g = 0n;
    for (const k of d.m.values()) g = gcd(g, k);
    if (d.c % g !== 0n) return FALSE;
    const first = [...d.m.values()][0];
    if (first < 0n) g = -g;
    const m = new Map();
    for (const [x, k] of d.m) m.set(x, k / g);
    return mk("eq0", "Bool", [fromLin(d.c / g, m)]);
  }
  if (d.op === "bit2" && d.lo === 0n) {
    if (d.extra === "or") return and(eq(d.args[0], ZERO), eq(d.args[1], ZERO));
    if (d.extra === "xor") return eq(d.args[0], d.args[1]);
  }
  return mk("eq0", "Bool", [d]);
}
// forall v. body   (v: bound variable term)
export function forall(vs, body) {
  if (body === TRUE || body === FALSE) return body;
  const t = mk("forall", "Bool", [body], vs.map((v) => v.extra).join(","));
  t.vs = vs;
  return t;
}
export function exists(vs, body) {
  return not(forall(vs, not(body)));
}

// ---------- substitution ----------
export function subst(t, map) { // map: Map(term->term)
  const memo = new Map();
  const go = (t) => {
    if (map.has(t)) return map.get(t);
    if (t.args.length === 0) return t;
    let r = memo.get(t);
    if (r) return r;
    r = rebuild(t, go);
    memo.set(t, r);
    return r;
  };
  return go(t);
}
function rebuild(t, go) {
  switch (t.op) {
    case "app":
      return app(t.fn, t.args.map(go));
    case "lin": {
      let c = t.c;
      const m = new Map();
      for (const [a, k] of t.m) c += addInto(m, go(a), k);
      return fromLin(c, m);
    }
    case "mul":
      return t.args.map(go).reduce((x, y) => mul(x, y));
    case "ext":
      return ext(go(t.args[0]), t.sh, t.w);
    case "div":
      return div(go(t.args[0]), go(t.args[1]));
    case "mod":
      return mod(go(t.args[0]), go(t.args[1]));
    case "ite":
      return ite(go(t.args[0]), go(t.args[1]), go(t.args[2]));
    case "not":
      return not(go(t.args[0]));
    case "and":
      return and(...t.args.map(go));
    case "or":
      return or(...t.args.map(go));
    case "iff":
      return iff(go(t.args[0]), go(t.args[1]));
    case "le0":
      return le0(go(t.args[0]));
    case "eq0":
      return eq(go(t.args[0]), ZERO);
    case "forall":
      return forall(t.vs, go(t.args[0]));
    case "bit2":
      return bit2(t.extra, go(t.args[0]), go(t.args[1]));
    default:
      throw new Error("rebuild " + t.op);
  }
}
// uninterpreted-by-LIA bit operations on 32-bit (or wider, non-negative) values
export function bit2(kind, a, b) {
  if (a.id > b.id) [a, b] = [b, a];
  const t = mk("bit2", "Int", [a, b], kind);
  const nn = (x) => x.lo !== null && x.lo >= 0n;
  if (nn(a) && nn(b)) {
    t.lo = 0n;
    if (a.hi !== null && b.hi !== null) {
      const m = a.hi > b.hi ? a.hi : b.hi;
      let p = 1n;
      while (p <= m) p *= 2n;
      t.hi = kind === "and" ? (a.hi < b.hi ? a.hi : b.hi) : p - 1n;
    }
  }
  return t;
}

// ---------- printing ----------
const cn = (c) => c < 0n ? `(- ${-c})` : `${c}`;
export const print = (t) => t.s ??= printWith(t, print);
// prints one level; the children are printed by `print`
export function printWith(t, print) {
  let s;
  switch (t.op) {
    case "true":
    case "false":
      s = t.op;
      break;
    case "num":
      s = cn(t.c);
      break;
    case "bv":
      s = t.extra;
      break;
    case "app":
      s = t.args.length ? `(|${t.fn.name}| ${t.args.map(print).join(" ")})` : `|${t.fn.name}|`;
      break;
    case "lin": {
      const ps = [...t.m].map(([a, k]) => k === 1n ? print(a) : `(* ${cn(k)} ${print(a)})`);
      if (t.c !== 0n) ps.push(cn(t.c));
      s = ps.length === 1 ? ps[0] : `(+ ${ps.join(" ")})`;
      break;
    }
    case "mul":
      s = `(* ${t.args.map(print).join(" ")})`;
      break;
    case "ext": {
      const d = t.sh ? `(div ${print(t.args[0])} ${pow2(t.sh)})` : print(t.args[0]);
      s = t.w === null ? d : `(mod ${d} ${pow2(t.w)})`;
      break;
    }
    case "div":
    case "mod":
      s = `(${t.op} ${print(t.args[0])} ${print(t.args[1])})`;
      break;
    case "ite":
      s = `(ite ${t.args.map(print).join(" ")})`;
      break;
    case "not":
      s = `(not ${print(t.args[0])})`;
      break;
    case "and":
    case "or":
      s = `(${t.op} ${t.args.map(print).join(" ")})`;
      break;
    case "iff":
      s = `(= ${t.args.map(print).join(" ")})`;
      break;
    case "le0": {
      s = `(<= ${print(t.args[0])} 0)`;
      break;
    }
    case "eq0":
      s = `(= ${print(t.args[0])} 0)`;
      break;
    case "forall":
      s = `(forall (${t.vs.map((v) => `(${v.extra} Int)`).join(" ")}) ${print(t.args[0])})`;
      break;
    case "bit2":
      s = `(|${t.extra}!64| ${print(t.args[0])} ${print(t.args[1])})`;
      break;
    default:
      throw new Error("print " + t.op);
  }
  return s;
}
const BOOLS = new Set(["true", "false", "not", "and", "or", "iff", "le0", "eq0", "forall"]);
export const sortOf = (t) => BOOLS.has(t.op) ? "Bool" : t.op === "app" ? t.fn.sort : t.op === "ite" ? sortOf(t.args[1]) : "Int";
// collect all subterms
export function subterms(ts) {
  const seen = new Set();
  const st = [...ts];
  while (st.length) {
    const t = st.pop();
    if (seen.has(t)) continue;
    seen.add(t);
    for (const a of t.args) st.push(a);
  }
  return seen;
}
const hasBvMemo = new Map();
export function hasBv(t) {
  if (t.op === "bv") return true;
  if (t.args.length === 0) return false;
  let r = hasBvMemo.get(t);
  if (r === undefined) {
    r = t.args.some(hasBv);
    hasBvMemo.set(t, r);
  }
  return r;
}
export const linParts = toLin;

// ---------- simplification under ground unit facts ----------
export class Context {
  constructor() {
    this.lit = new Map(); // boolean term -> truth
    this.iv = new Map(); // atom -> [lo, hi]
    this.key = new Map(); // linear form without its constant -> [lo, hi]
    this.memo = new Map();
    this.n = 0;
  }
  tighten(map, k, lo, hi) {
    const o = map.get(k) ?? [k.lo ?? null, k.hi ?? null];
    const r = [o[0] === null ? lo : lo === null || lo < o[0] ? o[0] : lo, o[1] === null ? hi : hi === null || hi > o[1] ? o[1] : hi];
    map.set(k, r);
  }
  add(f) {
    if (hasBv(f) || f.op === "forall") return;
    let g = f, truth = true;
    if (g.op === "not") {
      g = g.args[0];
      truth = false;
    }
    if (g.op === "true" || g.op === "false" || g.op === "and" || g.op === "forall") return;
    this.n++;
    if (this.memo.size) this.memo = new Map();
    this.lit.set(g, truth);
    if (g.op !== "le0" && (g.op !== "eq0" || !truth)) return;
    let { c, m } = toLin(g.args[0]);
    const put = (m, lo, hi) => {
      if (m.size === 1) {
        const [[a, k]] = m;
        const d = (x, up) => x === null ? null : up ? fdiv(x, k) : -fdiv(-x, k);
        if (k > 0n) this.tighten(this.iv, a, d(lo, false), d(hi, true));
        else this.tighten(this.iv, a, hi === null ? null : -fdiv(hi, -k), lo === null ? null : fdiv(-lo, -k));
      } else {
        this.tighten(this.key, fromLin(0n, m), lo, hi);
        this.tighten(this.key, fromLin(0n, new Map([...m].map(([a, k]) => [a, -k]))), hi === null ? null : -hi, lo === null ? null : -lo);
      }
    };
    if (!m.size) return;
    if (g.op === "eq0") put(m, -c, -c);
    else if (truth) put(m, null, -c);
    else put(m, 1n - c, null);
  }
  interval(x) {
    const { c, m } = toLin(x);
    let lo = c, hi = c;
    for (const [a, k] of m) {
      let [al0, ah0] = this.iv.get(a) ?? [a.lo ?? null, a.hi ?? null];
      if (a.op === "ext" && a.w === null && a.args[0].op !== "lin") {
        // floor(x / 2^sh) is monotone in x
        const r = this.iv.get(a.args[0]);
        if (r) {
          if (r[0] !== null && (al0 === null || fdiv(r[0], pow2(a.sh)) > al0)) al0 = fdiv(r[0], pow2(a.sh));
          if (r[1] !== null && (ah0 === null || fdiv(r[1], pow2(a.sh)) < ah0)) ah0 = fdiv(r[1], pow2(a.sh));
        }
      }
      const [al, ah] = k > 0n ? [al0, ah0] : [ah0, al0];
      lo = lo === null || al === null ? null : lo + k * al;
      hi = hi === null || ah === null ? null : hi + k * ah;
    }
    if (m.size > 1) {
      const r = this.key.get(fromLin(0n, m));
      if (r) {
        if (r[0] !== null && (lo === null || r[0] + c > lo)) lo = r[0] + c;
        if (r[1] !== null && (hi === null || r[1] + c < hi)) hi = r[1] + c;
      }
    }
    return [lo, hi];
  }
  simplify(t) {
    if (!this.n) return t;
    const memo = this.memo;
    const known = (t) => {
      if (t.op === "num" || t.op === "true" || t.op === "false" || hasBv(t)) return t;
      const l = this.lit.get(t);
      if (l !== undefined) return bool(l);
      if (t.op === "le0" || t.op === "eq0") {
        const [lo, hi] = this.interval(t.args[0]);
        if (t.op === "le0") {
          if (hi !== null && hi <= 0n) return TRUE;
          if (lo !== null && lo > 0n) return FALSE;
        } else {
          if (lo !== null && lo > 0n || hi !== null && hi < 0n) return FALSE;
          if (lo === 0n && hi === 0n) return TRUE;
        }
        return t;
      }
      if (t.sort === "Int" && t.op !== "lin") {
        const r = this.iv.get(t);
        if (r && r[0] !== null && r[0] === r[1]) return num(r[0]);
        if (t.op === "ext" && t.w !== null) {
          const [lo, hi] = this.interval(t.args[0]);
          if (lo !== null && hi !== null) {
            const B = pow2(t.sh + t.w);
            const q = fdiv(lo, B);
            if (q === fdiv(hi, B)) return ext(sub(t.args[0], num(q * B)), t.sh, null);
          }
        }
      }
      return t;
    };
    const go = (t) => {
      if (t.args.length === 0) return known(t);
      let r = memo.get(t);
      if (r) return r;
      r = known(t);
      if (r === t) {
        r = rebuild(t, go);
        if (r !== t) {
          const k = known(r);
          r = k;
        }
      }
      memo.set(t, r);
      return r;
    };
    return go(t);
  }
}
export { fromLin };

const nlMemo = new Map();
// does the term contain products of unknowns or division by an unknown?
export function nonlinear(t) {
  let r = nlMemo.get(t);
  if (r !== undefined) return r;
  r = t.op === "mul" || (t.op === "div" || t.op === "mod") && t.args[1].op !== "num";
  if (!r) for (const a of t.args ?? []) if (nonlinear(a)) {
    r = true;
    break;
  }
  if (!r && t.m) for (const a of t.m.keys()) if (nonlinear(a)) {
    r = true;
    break;
  }
  nlMemo.set(t, r);
  return r;
}

const mentionMemo = new Map();
export function mentions(t, fname) {
  let m = mentionMemo.get(fname);
  if (!m) mentionMemo.set(fname, m = new Map());
  let r = m.get(t);
  if (r !== undefined) return r;
  r = t.op === "app" && t.fn.name === fname || t.args.some((a) => mentions(a, fname));
  m.set(t, r);
  return r;
}
