// Text as a sequence of segments: literals, decimal renderings of integers, and opaque text of unknown length.  Equality and prefixes are
// decided segment by segment where that is exact and left to the solver's uninterpreted functions elsewhere.
import * as T from "./term.mjs";

export function install(I, S) {
  const lenFn = () => T.declFn("strlen", 1, "Int", 0n, null);
  const decFn = () => T.declFn("declen", 1, "Int", 1n, null);
  const segLen = (g) => g.lit !== undefined ? T.num(g.lit.length) : g.num ? T.app(decFn(), [g.num]) : T.app(lenFn(), [g.t]);
  const segsOf = (v) => v.lit !== undefined ? v.lit === "" ? [] : [{ lit: v.lit }] : v.segs ?? [{ t: v.t }];
  const lenOf = (v) => v.lit !== undefined ? T.num(v.lit.length) : T.add(T.ZERO, ...segsOf(v).map(segLen));
  const norm = (gs) => {
    const out = [];
    for (const g of gs) {
      if (g.lit === "") continue;
      const last = out.at(-1);
      if (g.lit !== undefined && last?.lit !== undefined) out[out.length - 1] = { lit: last.lit + g.lit };
      else out.push(g);
    }
    return out;
  };
  // the value of a sequence of segments: its identity is a function of the segments, so equal sequences are equal
  const make = (gs0) => {
    const gs = norm(gs0);
    if (gs.length === 0) return S("");
    if (gs.length === 1 && gs[0].lit !== undefined) return S(gs[0].lit);
    if (gs.length === 1 && gs[0].num) return { k: "str", t: numTerm(gs[0].num), segs: gs };
    if (gs.length === 1) return { k: "str", t: gs[0].t };
    const shape = gs.map((g) => g.lit !== undefined ? "L" + I.strCode(g.lit).c : g.num ? "N" : "_").join("");
    return { k: "str", t: T.app(T.declFn("concat" + shape, gs.filter((g) => g.lit === undefined).length), gs.filter((g) => g.lit === undefined).map((g) => g.num ?? g.t)), segs: gs };
  };
  const numTerm = (n) => T.app(T.declFn("numToStr", 1), [n]);
  const fromInt = (n) => {
    if (n.op === "num") return S(String(n.c));
    const t = numTerm(n);
    if (!T.hasBv(t)) {
      I.X.assume(T.eq(T.app(T.declFn("strToNum", 1), [t]), n)); // decimal rendering is injective
      I.X.assume(T.ge(t, T.ZERO));
    }
    return { k: "str", t, segs: [{ num: n }] };
  };
  // does the decimal rendering n, followed by `rest`, stand at the start of literal text?
  const litNum = (lit, more) => {
    const m = /^-?\d+/.exec(lit)?.[0];
    if (m === undefined) return { no: true };
    if (m.length === lit.length && more) return { bail: true };
    if (String(BigInt(m)) !== m) return { no: true };
    return { value: BigInt(m), n: m.length };
  };
  const endsNumber = (gs) => gs.length === 0 || gs[0].lit !== undefined && !/^\d/.test(gs[0].lit);
  // equality (or, with `prefix`, whether b is a prefix of a); null when not decided segment by segment
  function compare(a0, b0, prefix) {
    const A = [...segsOf(a0)], Bs = [...segsOf(b0)], cond = [];
    const chop = (L, n) => L[0].lit.length === n ? L.shift() : L[0] = { lit: L[0].lit.slice(n) };
    while (A.length && Bs.length) {
      const a = A[0], b = Bs[0];
      if (a.lit !== undefined && b.lit !== undefined) {
        const n = Math.min(a.lit.length, b.lit.length);
        if (a.lit.slice(0, n) !== b.lit.slice(0, n)) return T.FALSE;
        chop(A, n);
        chop(Bs, n);
      } else if (a.num && b.num) {
        if (a.num === b.num) {
          A.shift(), Bs.shift();
          continue;
        }
        if (prefix && Bs.length === 1) {
          const eq = T.eq(a.num, b.num), sameLen = T.eq(segLen(a), segLen(b));
          cond.push(T.or(eq, T.and(T.not(sameLen), T.app(T.declFn("decPrefix", 2, "Bool"), [a0.t, b0.t]))));
          return T.and(...cond);
        }
        A.shift(), Bs.shift();
        if (!(endsNumber(A) && endsNumber(Bs)) && !cond.includes(T.eq(segLen(a), segLen(b)))) return null;
        cond.push(T.eq(a.num, b.num));
      } else if (a.num && b.lit !== undefined || b.num && a.lit !== undefined) {
        const [L, M, swapped] = a.num ? [Bs, A, false] : [A, Bs, true];
        // a rendering whose length is already known takes that many characters
        let w = 0;
        for (let k = 1; k <= 24 && !w; k++) if (cond.includes(T.eq(segLen(M[0]), T.num(k)))) w = k;
        if (w && L[0].lit.length < w) return null;
        const r = litNum(w ? L[0].lit.slice(0, w) : L[0].lit, !w && L.length > 1);
        if (r.no || w && r.n !== w) return T.FALSE;
        if (r.bail || !w && !endsNumber(M.slice(1))) return null;
        if (!w && prefix && (swapped ? M.length === 1 : r.n === L[0].lit.length)) return null;
        cond.push(T.eq(M[0].num, T.num(r.value)));
        M.shift();
        chop(L, r.n);
      } else if (a.t && b.t && a.t === b.t) {
        A.shift(), Bs.shift();
      } else if (a.t && b.t && A.length === 1 && Bs.length === 1) {
        if (prefix) cond.push(T.or(T.eq(a.t, b.t), T.and(T.not(T.eq(segLen(a), segLen(b))), T.app(T.declFn("str_startsWith", 2, "Bool"), [a.t, b.t]))));
        else cond.push(T.eq(a.t, b.t));
        return T.and(...cond);
      } else if (a.t && b.t) {
        // opaque texts of one length followed by whatever comes next
        const sl = T.eq(segLen(a), segLen(b));
        const known = sl === T.TRUE || cond.includes(sl);
        if (!known) return null;
        cond.push(T.eq(a.t, b.t));
        A.shift(), Bs.shift();
      } else return null;
    }
    if (prefix ? !Bs.length : !A.length && !Bs.length) return T.and(...cond);
    const rest = A.length && !prefix ? A : Bs;
    if (rest.some((g) => g.lit !== undefined || g.num)) return T.FALSE;
    return T.and(...cond, ...rest.map((g) => T.eq(segLen(g), T.ZERO)));
  }
  const structured = (v) => v.lit !== undefined || v.segs;
  function same(a, b) {
    if (a.t === b.t) return T.TRUE;
    if (!structured(a) && !structured(b) || !a.segs && !b.segs) return T.eq(a.t, b.t);
    return compare(a, b, false) ?? T.eq(a.t, b.t);
  }
  function startsWith(a, b) {
    return compare(a, b, true) ?? T.app(T.declFn("str_startsWith", 2, "Bool"), [a.t, b.t]);
  }
  // position -> [segment index, offset within a literal]; null when it is not a known place
  function locate(gs, at) {
    let off = T.ZERO;
    for (let i = 0; i <= gs.length; i++) {
      const d = T.sub(at, off);
      if (d.op === "num") {
        if (d.c === 0n) return [i, 0];
        if (i < gs.length && gs[i].lit !== undefined && d.c > 0n && d.c < BigInt(gs[i].lit.length)) return [i, Number(d.c)];
      }
      if (i < gs.length) off = T.add(off, segLen(gs[i]));
    }
    return null;
  }
  function slice(v, from, to) {
    const gs = segsOf(v);
    const a = locate(gs, from), b = to === undefined ? [gs.length, 0] : locate(gs, to);
    if (!a || !b) return null;
    if (a[0] > b[0] || a[0] === b[0] && a[1] >= b[1]) return S("");
    const out = gs.slice(a[0], b[0] + (b[1] ? 1 : 0)).map((g) => ({ ...g }));
    if (b[1]) out[out.length - 1] = { lit: out.at(-1).lit.slice(0, b[1]) };
    if (a[1]) out[0] = { lit: out[0].lit.slice(a[1]) };
    return make(out);
  }
  function indexOf(v, needle, from) {
    const gs = segsOf(v), a = locate(gs, from);
    if (!a || needle.length !== 1) return null;
    let off = T.add(T.ZERO, ...gs.slice(0, a[0]).map(segLen));
    for (let i = a[0]; i < gs.length; i++) {
      const g = gs[i];
      if (g.lit !== undefined) {
        const p = g.lit.indexOf(needle, i === a[0] ? a[1] : 0);
        if (p >= 0) return T.add(off, T.num(p));
      } else if (!g.num || /[-\d]/.test(needle)) return null;
      off = T.add(off, segLen(g));
    }
    return T.num(-1);
  }
  function charAt(v, i) {
    const gs = segsOf(v), a = locate(gs, i);
    return a && gs[a[0]]?.lit !== undefined ? S(gs[a[0]].lit[a[1]]) : null;
  }
  const number = (v) => v.segs?.length === 1 && v.segs[0].num ? v.segs[0].num : null;
  I.str = { segsOf, lenOf, make, fromInt, same, startsWith, slice, indexOf, charAt, number };
}
