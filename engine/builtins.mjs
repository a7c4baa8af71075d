// Models of the JavaScript built-ins the functions under contract use. These are trusted (see DESIGN.md) and
// cross-checked by running the same contracts on the real code under Deno.
import * as T from "./term.mjs";
import { install as installCrypto } from "./crypto.mjs";
import { install as installStrings } from "./strings.mjs";
import { B, BIG, FALSE, isObj, JSThrow, kindName, N, NULL, OutOfFragment, PathEnd, S, strCode, SYM, TRUE, UNDEF } from "./interp.mjs";

export function makeBuiltins(I) {
  const OBJECT_PROTO = { k: "native", name: "Object.prototype", statics: {} };
  I.strCode = strCode;
  installStrings(I, S);
  const nat = (name, call, extra = {}) => ({ k: "native", name, call, ...extra });
  const fn = (name, f) => nat(name, function* (I, self, args, node) {
    return f(self, args, node);
  });
  const gfn = (name, f) => nat(name, function* (I, self, args, node) {
    return yield* f(self, args, node);
  });
  const isBytes = (v) => v?.k === "obj" && v.o.tag === "bytes";
  const isArr = (v) => v?.k === "obj" && v.o.tag === "arr";
  const iTerm = (v, node) => I.toInt(v, node);
  const nonneg = (t) => t.lo !== null && t.lo >= 0n;

  // ---- relative index handling; forks instead of building min/max terms ----
  function clampIndex(v, len, dflt, node) {
    if (!v || v.k === "undef") return dflt;
    const x = iTerm(v, node);
    if (I.pure) {
      const neg = T.add(len, x);
      return T.ite(T.lt(x, T.ZERO), T.ite(T.lt(neg, T.ZERO), T.ZERO, neg), T.ite(T.gt(x, len), len, x));
    }
    if (I.decide(T.lt(x, T.ZERO), node)) {
      const y = T.add(len, x);
      return I.decide(T.lt(y, T.ZERO), node) ? T.ZERO : y;
    }
    return I.decide(T.gt(x, len), node) ? len : x;
  }
  function span(args, len, node) {
    const b = clampIndex(args[0], len, T.ZERO, node);
    const e = clampIndex(args[1], len, len, node);
    const n = T.sub(e, b);
    if (n.op === "num") return [b, n.c < 0n ? T.ZERO : n];
    if (I.pure) return [b, T.ite(T.lt(n, T.ZERO), T.ZERO, n)];
    return I.decide(T.lt(n, T.ZERO), node) ? [b, T.ZERO] : [b, n];
  }

  // ---- bytes ----
  // The contents of a buffer are a function from positions to bytes; writes at known positions are kept in a log shared by the
  // versions of the buffer, so that reading a known position does not go through every write.
  class Log {
    singles = new Map();
    ranges = [];
    entries = [];
    constructor(base) {
      this.base = base;
    }
    view(version) {
      const sel = (i) => {
        if (i.op === "num") {
          let at = -1, v;
          const l = this.singles.get(i.c);
          if (l) {
            let k = l.length - 1;
            while (k >= 0 && l[k][0] >= version) k--;
            if (k >= 0) [at, v] = l[k];
          }
          for (let k = this.ranges.length - 1; k >= 0 && this.ranges[k].at > at; k--) {
            const r = this.ranges[k];
            if (r.at < version && r.lo.c <= i.c && i.c < r.hi.c) return r.src(T.num(i.c - r.lo.c));
          }
          return at >= 0 ? v : this.base(i);
        }
        let r = this.base(i);
        for (let k = 0; k < version; k++) {
          const e = this.entries[k];
          r = e.hi ? T.ite(T.and(T.le(e.lo, i), T.lt(i, e.hi)), e.src(T.sub(i, e.lo)), r) : T.ite(T.eq(i, e.lo), e.v, r);
        }
        return r;
      };
      return { sel, log: this, version };
    }
    add(e) {
      e.at = this.entries.length;
      this.entries.push(e);
      if (e.hi) this.ranges.push(e);
      else {
        const l = this.singles.get(e.lo.c);
        if (l) l.push([e.at, e.v]);
        else this.singles.set(e.lo.c, [[e.at, e.v]]);
      }
      return this.view(this.entries.length);
    }
  }
  function writeBytes(o, off, n, src) { // absolute in the view
    const lo = T.add(o.off, off), d = o.buf.data.v, old = d.sel;
    if (lo.op === "num" && n.op === "num") {
      const log = d.log && d.version === d.log.entries.length ? d.log : new Log(old);
      o.buf.data.v = log.add(n.c === 1n ? { lo, v: src(T.ZERO) } : { lo, hi: T.add(lo, n), src });
      return;
    }
    if (n.op === "num" && n.c === 1n) {
      o.buf.data.v = { sel: (i) => T.ite(T.eq(i, lo), src(T.ZERO), old(i)) };
      return;
    }
    const hi = T.add(lo, n);
    o.buf.data.v = { sel: (i) => T.ite(T.and(T.le(lo, i), T.lt(i, hi)), src(T.sub(i, lo)), old(i)) };
  }
  const toByte = (v, node) => T.ext(iTerm(v, node), 0, 8);
  function bytesFrom(v, node) {
    if (isBytes(v)) return { len: v.o.len, sel: I.bytesSel(v.o) };
    if (isArr(v)) {
      if (v.o.data.v.list) {
        const ts = v.o.data.v.list.map((x) => toByte(x, node));
        return { len: T.num(ts.length), sel: (i) => pick(ts, i) };
      }
      const at = v.o.data.v.at;
      return { len: v.o.data.v.len, sel: (i) => toByte(at(i), node) };
    }
    I.oof(node, "bytes from " + kindName(v));
  }
  function pick(ts, i) {
    if (i.op === "num") return ts[Number(i.c)] ?? T.ZERO;
    let r = T.ZERO;
    for (let k = ts.length - 1; k >= 0; k--) r = T.ite(T.eq(i, T.num(k)), ts[k], r);
    return r;
  }
  function lenArg(v, node) {
    const t = iTerm(v, node);
    if (!nonneg(t) && I.decide(T.lt(t, T.ZERO), node)) I.throwErr("RangeError", "Invalid typed array length", node);
    return t;
  }
  const Uint8ArrayC = nat("Uint8Array", null, {
    *construct(args, node) {
      const a = args[0];
      if (!a || a.k === "undef") return I.zeros(T.ZERO, node);
      if (a.k === "num" || a.k === "nan") return I.zeros(lenArg(a, node), node);
      if (a.k === "obj" && a.o.tag === "buf") {
        const off = args[1] && args[1].k !== "undef" ? iTerm(args[1], node) : T.ZERO;
        const len = args[2] && args[2].k !== "undef" ? iTerm(args[2], node) : T.sub(a.o.len, off);
        if (!I.decide(T.and(T.ge(off, T.ZERO), T.ge(len, T.ZERO), T.le(T.add(off, len), a.o.len)), node)) I.throwErr("RangeError", "out of bounds", node);
        return I.bytesView(a.o, off, len, node);
      }
      if (a.k === "obj" && (a.o.tag === "set" || a.o.tag === "map")) return I.newBytes(...Object.values(bytesFrom(I.list(I.elements(a, node)), node)), node);
      const { len, sel } = bytesFrom(a, node);
      return I.newBytes(len, sel, node);
    },
    statics: {
      from: fn("from", (s, [a], node) => {
        const { len, sel } = bytesFrom(a, node);
        return I.newBytes(len, sel, node);
      }),
      of: fn("of", (s, args, node) => {
        const { len, sel } = bytesFrom(I.list(args), node);
        return I.newBytes(len, sel, node);
      }),
      BYTES_PER_ELEMENT: N(1),
    },
    isInstance: (v) => isBytes(v),
  });
  const ArrayBufferC = nat("ArrayBuffer", null, {
    *construct(args, node) {
      return { k: "obj", o: I.newBuf(lenArg(args[0] ?? N(0), node), () => T.ZERO, node) };
    },
    isInstance: (v) => v.k === "obj" && v.o.tag === "buf",
  });
  const DataViewC = nat("DataView", null, {
    *construct(args, node) {
      const b = args[0];
      if (b?.k !== "obj" || b.o.tag !== "buf") I.oof(node, "DataView of " + kindName(b));
      const off = args[1] && args[1].k !== "undef" ? iTerm(args[1], node) : T.ZERO;
      const len = args[2] && args[2].k !== "undef" ? iTerm(args[2], node) : T.sub(b.o.len, off);
      if (!I.decide(T.and(T.ge(off, T.ZERO), T.ge(len, T.ZERO), T.le(T.add(off, len), b.o.len)), node)) I.throwErr("RangeError", "out of bounds", node);
      const o = I.newObj("view", node);
      Object.assign(o, { buf: b.o, off, len });
      return { k: "obj", o };
    },
    isInstance: (v) => v.k === "obj" && v.o.tag === "view",
  });
  const VIEW = /^(get|set)(Uint8|Int8|Uint16|Int16|Uint32|Int32|BigUint64|BigInt64|Float64|Float32)$/;
  const SIZES = { Uint8: 1, Int8: 1, Uint16: 2, Int16: 2, Uint32: 4, Int32: 4, BigUint64: 8, BigInt64: 8, Float64: 8 };
  function dataView(kind, type, self, args, node) {
    const o = self.o, n = SIZES[type];
    if (!n) I.oof(node, "DataView " + type);
    const pos = iTerm(args[0] ?? N(0), node);
    const inb = T.and(T.ge(pos, T.ZERO), T.le(T.add(pos, T.num(n)), o.len));
    if (!I.pure && !I.decide(inb, node)) I.throwErr("RangeError", "Offset is outside the bounds of the DataView", node);
    const leV = kind === "get" ? args[1] : args[2];
    const le = n === 1 || (leV && I.cond(leV, node));
    const base = T.add(o.off, pos);
    const at = (k) => T.add(base, T.num(le ? k : n - 1 - k));
    const signed = type.startsWith("Int") || type === "BigInt64";
    if (kind === "get") {
      const sel = o.buf.data.v.sel;
      let u = T.ZERO;
      const parts = [];
      for (let k = 0; k < n; k++) parts.push(T.scale(I.simp(sel(at(k))), 1n << BigInt(8 * k)));
      u = T.add(...parts);
      if (type === "Float64") return { k: "dbl", t: u };
      const v = signed ? T.ite(T.ge(u, T.num(1n << BigInt(8 * n - 1))), T.sub(u, T.num(1n << BigInt(8 * n))), u) : u;
      return n === 8 ? BIG(v) : N(v);
    }
    let t;
    const v = args[1];
    if (type === "Float64") {
      if (v.k !== "dbl") {
        if (v.k !== "num") I.oof(node, "setFloat64 of " + kindName(v));
        t = T.app(T.declFn("dblBits", 1, "Int", 0n, (1n << 64n) - 1n), [v.t]);
      } else t = v.t;
    } else if (n === 8) {
      if (v.k !== "big") I.throwErr("TypeError", "Cannot convert to BigInt", node);
      t = v.t;
    } else t = iTerm(v, node);
    const old = o.buf.data.v.sel;
    const pairs = Array.from({ length: n }, (_, k) => [at(k), T.ext(t, 8 * k, 8)]);
    const lo = base, hi = T.add(base, T.num(n));
    o.buf.data.v = {
      sel: (i) => {
        for (const [p, x] of pairs) if (p === i) return x;
        const inside = T.and(T.le(lo, i), T.lt(i, hi));
        if (inside === T.FALSE) return old(i);
        let r = old(i);
        for (const [p, x] of pairs) r = T.ite(T.eq(i, p), x, r);
        return r;
      },
    };
    return UNDEF;
  }

  function bytesProp(b, key, node) {
    const o = b.o;
    if (typeof key !== "string") {
      if (key.k === "num") {
        const i = key.d ? I.oof(node, "fractional index") : key.t;
        if (I.pure || I.decide(T.and(T.ge(i, T.ZERO), T.lt(i, o.len)), node)) return N(I.simp(I.bytesSel(o)(i)));
        return UNDEF;
      }
      return UNDEF;
    }
    switch (key) {
      case "length":
      case "byteLength":
        return N(o.len);
      case "byteOffset":
        return N(o.off);
      case "buffer":
        return { k: "obj", o: o.buf };
      case "BYTES_PER_ELEMENT":
        return N(1);
      case "subarray":
        return fn("subarray", (s, args, node) => {
          const [off, n] = span(args, s.o.len, node);
          return I.bytesView(s.o.buf, T.add(s.o.off, off), n, node);
        });
      case "slice":
        return fn("slice", (s, args, node) => {
          const [off, n] = span(args, s.o.len, node);
          const sel = I.bytesSel(s.o);
          return I.newBytes(n, (i) => sel(T.add(off, i)), node);
        });
      case "set":
        return fn("set", (s, args, node) => {
          const { len, sel } = bytesFrom(args[0], node);
          const off = args[1] && args[1].k !== "undef" ? iTerm(args[1], node) : T.ZERO;
          if (!I.decide(T.and(T.ge(off, T.ZERO), T.le(T.add(off, len), s.o.len)), node)) I.throwErr("RangeError", "offset is out of bounds", node);
          writeBytes(s.o, off, len, sel);
          return UNDEF;
        });
      case "fill":
        return fn("fill", (s, args, node) => {
          const [off, n] = span(args.slice(1), s.o.len, node);
          const v = toByte(args[0] ?? UNDEF, node);
          if (!(n.op === "num" && n.c === 0n)) writeBytes(s.o, off, n, () => v);
          return s;
        });
      case "at":
        return fn("at", (s, [i], node) => {
          let x = iTerm(i, node);
          if (I.decide(T.lt(x, T.ZERO), node)) x = T.add(x, s.o.len);
          return bytesProp(s, N(x), node);
        });
      case "reverse":
        return fn("reverse", (s, args, node) => {
          const sel = I.bytesSel(s.o), len = s.o.len;
          writeBytes(s.o, T.ZERO, len, (i) => sel(T.sub(T.sub(len, T.ONE), i)));
          return s;
        });
      case "toReversed":
        return fn("toReversed", (s, args, node) => {
          const sel = I.bytesSel(s.o), len = s.o.len;
          return I.newBytes(len, (i) => sel(T.sub(T.sub(len, T.ONE), i)), node);
        });
      case "copyWithin":
        return fn("copyWithin", (s, args, node) => {
          const len = s.o.len;
          const to = clampIndex(args[0], len, T.ZERO, node);
          const [from, n] = span(args.slice(1), len, node);
          const room = T.sub(len, to);
          const cnt = I.decide(T.gt(n, room), node) ? room : n;
          const sel = I.bytesSel(s.o);
          writeBytes(s.o, to, cnt, (i) => sel(T.add(from, i)));
          return s;
        });
      case "every":
      case "some":
      case "map":
      case "filter":
      case "reduce":
      case "forEach":
      case "indexOf":
      case "includes":
      case "find":
      case "findIndex":
      case "join":
      case "entries":
      case "values":
      case "toString":
        return gfn(key, function* (s, args, node) {
          const l = I.list(I.elements(s, node), node);
          const m = yield* arrProp(l, key, node);
          const r = yield* I.call(m, l, args, node);
          if (key !== "map" && key !== "filter") return r;
          const { len, sel } = bytesFrom(r, node);
          return I.newBytes(len, sel, node);
        });
      case "constructor":
        return Uint8ArrayC;
    }
    return undefined;
  }

  // ---- arrays ----
  const arrLen = (o) => o.data.v.list ? T.num(o.data.v.list.length) : o.data.v.len;
  const asSym = (o) => o.data.v.list
    ? { len: T.num(o.data.v.list.length), at: ((l) => (i) => atList(l, i))(o.data.v.list) }
    : o.data.v;
  function atList(l, i) {
    if (i.op === "num") return l[Number(i.c)] ?? UNDEF;
    if (l.length === 0) return UNDEF;
    let r = l[l.length - 1];
    for (let k = l.length - 2; k >= 0; k--) r = choose(T.eq(i, T.num(k)), l[k], r);
    return r;
  }
  // value-level if-then-else: a fork in code, a merge in specifications
  function choose(c, a, b) {
    if (c === T.TRUE || a === b) return a;
    if (c === T.FALSE) return b;
    if (a.k === b.k && ["num", "big", "bool"].includes(a.k) && !a.d && !b.d) return { k: a.k, t: T.ite(c, a.t, b.t) };
    if (a.k === "str" && b.k === "str") return SYM(T.ite(c, a.t, b.t));
    if (!I.pure) return I.decide(c) ? a : b;
    if (isBytes(a) && isBytes(b)) {
      const sa = I.bytesSel(a.o), sb = I.bytesSel(b.o);
      return I.newBytes(T.ite(c, a.o.len, b.o.len), (i) => T.ite(c, sa(i), sb(i)));
    }
    if (a.k === "obj" && b.k === "obj" && a.o.tag === "obj" && b.o.tag === "obj") {
      const o = I.newObj("obj");
      for (const k of new Set([...a.o.fields.keys(), ...b.o.fields.keys()])) I.setField(o, k, choose(c, a.o.fields.get(k)?.v ?? UNDEF, b.o.fields.get(k)?.v ?? UNDEF));
      return { k: "obj", o };
    }
    // a side that is out of range contributes nothing
    if (a.k === "undef") return b;
    if (b.k === "undef") return a;
    I.oof(null, "merge of " + kindName(a) + " and " + kindName(b));
  }
  I.choose = choose;
  function* arrProp(b, key, node) {
    const o = b.o;
    if (typeof key !== "string") {
      if (key.k !== "num") I.oof(node, "array key " + kindName(key));
      if (key.d) return UNDEF;
      const i = key.t;
      if (o.data.v.list && i.op === "num") return o.data.v.list[Number(i.c)] ?? UNDEF;
      if (!I.pure && !I.decide(T.and(T.ge(i, T.ZERO), T.lt(i, arrLen(o))), node)) return UNDEF;
      return asSym(o).at(i);
    }
    if (/^\d+$/.test(key)) return yield* arrProp(b, N(Number(key)), node);
    const L = () => {
      if (!o.data.v.list) return I.elements(b, node);
      return o.data.v.list;
    };
    const setL = (l) => o.data.v = { list: l };
    switch (key) {
      case "length":
        return N(arrLen(o));
      case "push":
        return fn("push", (s, args) => {
          const o = s.o;
          if (o.data.v.list) o.data.v = { list: [...o.data.v.list, ...args] };
          else {
            for (const v of args) {
              const { len, at } = o.data.v;
              o.data.v = { len: T.add(len, T.ONE), at: (i) => choose(T.eq(i, len), v, at(i)) };
            }
          }
          return N(arrLen(o));
        });
      case "pop":
        return fn("pop", (s, a, node) => {
          const o = s.o;
          if (o.data.v.list) {
            const l = o.data.v.list;
            o.data.v = { list: l.slice(0, -1) };
            return l.length ? l[l.length - 1] : UNDEF;
          }
          const { len, at } = o.data.v;
          if (I.decide(T.eq(len, T.ZERO), node)) return UNDEF;
          o.data.v = { len: T.sub(len, T.ONE), at };
          return at(T.sub(len, T.ONE));
        });
      case "shift":
        return fn("shift", (s, a, node) => {
          const o = s.o;
          if (o.data.v.list) {
            const l = o.data.v.list;
            o.data.v = { list: l.slice(1) };
            return l[0] ?? UNDEF;
          }
          const { len, at } = o.data.v;
          if (I.decide(T.eq(len, T.ZERO), node)) return UNDEF;
          o.data.v = { len: T.sub(len, T.ONE), at: (i) => at(T.add(i, T.ONE)) };
          return at(T.ZERO);
        });
      case "unshift":
        return fn("unshift", (s, args) => {
          const o = s.o;
          if (o.data.v.list) o.data.v = { list: [...args, ...o.data.v.list] };
          else {
            for (const v of [...args].reverse()) {
              const { len, at } = o.data.v;
              o.data.v = { len: T.add(len, T.ONE), at: (i) => choose(T.eq(i, T.ZERO), v, at(T.sub(i, T.ONE))) };
            }
          }
          return N(arrLen(o));
        });
      case "slice":
        return fn("slice", (s, args, node) => {
          const d = s.o.data.v;
          if (d.list && args.every((a) => a.k === "undef" || (a.k === "num" && a.t.op === "num"))) return I.list(d.list.slice(...args.map((a) => a.k === "undef" ? undefined : Number(a.t.c))), node);
          const { len, at } = asSym(s.o);
          const [off, n] = span(args, len, node);
          return I.symArr(n, (i) => at(T.add(off, i)), node);
        });
      case "at":
        return gfn("at", function* (s, [i], node) {
          let x = iTerm(i, node);
          if (I.decide(T.lt(x, T.ZERO), node)) x = T.add(x, arrLen(s.o));
          return yield* arrProp(s, N(x), node);
        });
      case "splice":
        return fn("splice", (s, args, node) => {
          const l = [...L()];
          const conc = args.slice(0, 2).every((a) => a.k === "num" && a.t.op === "num");
          if (conc) {
            const r = l.splice(Number(args[0].t.c), args.length > 1 ? Number(args[1].t.c) : l.length, ...args.slice(2));
            s.o.data.v = { list: l };
            return I.list(r, node);
          }
          // fork on the start and the count
          const st = clampIndex(args[0], T.num(l.length), T.ZERO, node);
          let k = 0;
          while (k < l.length && !I.decide(T.eq(st, T.num(k)), node)) k++;
          let cnt = l.length - k;
          if (args.length > 1) {
            const c = iTerm(args[1], node);
            let j = 0;
            if (!I.decide(T.le(c, T.ZERO), node)) {
              j = 1;
              while (j < cnt && !I.decide(T.eq(c, T.num(j)), node)) j++;
              if (cnt === 0) j = 0;
            }
            cnt = j;
          }
          const r = l.splice(k, cnt, ...args.slice(2));
          s.o.data.v = { list: l };
          return I.list(r, node);
        });
      case "concat":
        return fn("concat", (s, args, node) => I.list([...L(), ...args.flatMap((a) => isArr(a) ? I.elements(a, node) : [a])], node));
      case "reverse":
        return fn("reverse", (s) => {
          setL([...L()].reverse());
          return s;
        });
      case "toReversed":
        return fn("toReversed", (s, a, node) => I.list([...L()].reverse(), node));
      case "fill":
        return fn("fill", (s, args, node) => {
          if (args.length > 1) I.oof(node, "fill range");
          setL(L().map(() => args[0]));
          return s;
        });
      case "includes":
        return fn("includes", (s, [x], node) => B(T.or(...L().map((y) => I.strictEq(x, y, node)))));
      case "indexOf":
        return fn("indexOf", (s, [x], node) => {
          const l = L();
          for (let i = 0; i < l.length; i++) if (I.decide(I.strictEq(l[i], x, node), node)) return N(i);
          return N(-1);
        });
      case "lastIndexOf":
        return fn("lastIndexOf", (s, [x], node) => {
          const l = L();
          for (let i = l.length - 1; i >= 0; i--) if (I.decide(I.strictEq(l[i], x, node), node)) return N(i);
          return N(-1);
        });
      case "join":
        return fn("join", (s, [sep], node) => {
          const l = L();
          const parts = [];
          l.forEach((x, i) => {
            if (i) parts.push(sep && sep.k !== "undef" ? sep : S(","));
            parts.push(x.k === "undef" || x.k === "null" ? S("") : I.strOf(x, node));
          });
          return I.concatStr(parts.filter((p) => p.lit !== ""), node);
        });
      case "map":
      case "filter":
      case "forEach":
      case "find":
      case "findIndex":
      case "findLast":
      case "findLastIndex":
      case "some":
      case "every":
      case "flatMap":
        return gfn(key, function* (s, [f], node) {
          if (!s.o.data.v.list && s.o.data.v.len.op !== "num") {
            if (key === "map") return yield* symMap(s, f, node);
            I.oof(node, key + " over a symbolic array");
          }
          const l = L(), out = [];
          const order = key.startsWith("findLast") ? [...l.keys()].reverse() : [...l.keys()];
          for (const i of order) {
            const r = yield* I.call(f, UNDEF, [l[i], N(i), s], node);
            if (key === "map") out.push(r);
            else if (key === "flatMap") out.push(...(isArr(r) ? I.elements(r, node) : [r]));
            else if (key === "forEach") continue;
            else {
              if (I.pure && (key === "some" || key === "every")) {
                out.push(I.truthy(r));
                continue;
              }
              const t = I.cond(r, node);
              if (key === "filter" && t) out.push(l[i]);
              if ((key === "find" || key === "findLast") && t) return l[i];
              if ((key === "findIndex" || key === "findLastIndex") && t) return N(i);
              if (key === "some" && t) return TRUE;
              if (key === "every" && !t) return FALSE;
            }
          }
          if (I.pure && key === "some") return B(T.or(...out));
          if (I.pure && key === "every") return B(T.and(...out));
          if (key === "find" || key === "findLast" || key === "forEach") return UNDEF;
          if (key === "findIndex" || key === "findLastIndex") return N(-1);
          if (key === "some") return FALSE;
          if (key === "every") return TRUE;
          return I.list(out, node);
        });
      case "reduce":
        return gfn("reduce", function* (s, args, node) {
          const l = [...L()];
          let acc = args.length > 1 ? args[1] : l.shift();
          let i = args.length > 1 ? 0 : 1;
          if (acc === undefined) I.throwErr("TypeError", "Reduce of empty array", node);
          for (const x of l) acc = yield* I.call(args[0], UNDEF, [acc, x, N(i++)], node);
          return acc;
        });
      case "sort":
      case "toSorted":
        return gfn(key, function* (s, [f], node) {
          const l = [...L()], out = [];
          for (const x of l) { // stable insertion, forking on every comparison
            let p = out.length;
            while (p > 0) {
              let gt;
              if (f && f.k !== "undef") {
                const r = yield* I.call(f, UNDEF, [out[p - 1], x], node);
                gt = I.decide(T.gt(r.t, T.ZERO), node);
              } else gt = I.cond(I.arith(">", I.strOf(out[p - 1], node), I.strOf(x, node), node), node);
              if (!gt) break;
              p--;
            }
            out.splice(p, 0, x);
          }
          if (key === "toSorted") return I.list(out, node);
          setL(out);
          return s;
        });
      case "flat":
        return fn("flat", (s, a, node) => I.list(L().flatMap((x) => isArr(x) ? I.elements(x, node) : [x]), node));
      case "keys":
        return fn("keys", (s, a, node) => I.list(L().map((_, i) => N(i)), node));
      case "values":
        return fn("values", (s, a, node) => I.list(L(), node));
      case "entries":
        return fn("entries", (s, a, node) => I.list(L().map((x, i) => I.list([N(i), x], node)), node));
      case "constructor":
        return ArrayC;
    }
    return undefined;
  }
  function* symMap(s, f, node) {
    // the callback must be a pure expression of its element and index
    const { len, at } = s.o.data.v;
    return I.symArr(len, (i) => {
      I.pure++;
      try {
        const g = I.call(f, UNDEF, [at(i), N(i), s], node);
        const r = g.next();
        if (!r.done) I.oof(node, "await in map callback");
        return r.value;
      } finally {
        I.pure--;
      }
    }, node);
  }
  const ArrayC = nat("Array", function* (I, self, args, node) {
    return yield* ArrayC.construct(args, node);
  }, {
    *construct(args, node) {
      if (args.length === 1 && args[0].k === "num") {
        if (args[0].t.op !== "num") {
          if (!I.pure && I.decide(T.or(T.lt(args[0].t, T.ZERO), T.gt(args[0].t, T.num(0xFFFFFFFF))), node)) I.throwErr("RangeError", "Invalid array length", node);
          return I.symArr(args[0].t, () => UNDEF, node);
        }
        if (args[0].t.c < 0n || args[0].t.c > 0xFFFFFFFFn) I.throwErr("RangeError", "Invalid array length", node);
        return I.list(Array.from({ length: Number(args[0].t.c) }, () => UNDEF), node);
      }
      return I.list(args, node);
    },
    statics: {
      isArray: fn("isArray", (s, [a]) => B(T.bool(isArr(a)))),
      from: gfn("from", function* (s, [a, f], node) {
        let l;
        if (a.k === "obj" && a.o.tag === "obj" && a.o.fields.has("length")) {
          const n = a.o.fields.get("length").v.t;
          if (n.op !== "num") I.oof(node, "Array.from symbolic length");
          l = Array.from({ length: Number(n.c) }, () => UNDEF);
        } else if (isArr(a) && !a.o.data.v.list && a.o.data.v.len.op !== "num") {
          const d = a.o.data.v;
          const copy = I.symArr(d.len, d.at, node);
          if (f && f.k !== "undef") return yield* symMap(copy, f, node);
          return copy;
        } else l = I.elements(a, node);
        if (f && f.k !== "undef") {
          const out = [];
          for (let i = 0; i < l.length; i++) out.push(yield* I.call(f, UNDEF, [l[i], N(i)], node));
          l = out;
        }
        return I.list([...l], node);
      }),
      of: fn("of", (s, args, node) => I.list(args, node)),
      fromAsync: gfn("fromAsync", function* (s, [a], node) {
        I.oof(node, "Array.fromAsync");
      }),
    },
    isInstance: (v) => isArr(v),
  });

  // ---- maps and sets ----
  function coll(tag, node) {
    const o = I.newObj(tag, node);
    o.entries = true;
    o.data = I.cell(o.name + ".entries", []);
    return o;
  }
  function findEntry(o, key, node) {
    const es = o.data.v;
    for (let i = es.length - 1; i >= 0; i--) {
      const t = I.strictEq(es[i].key, key, node);
      if (t === T.TRUE || (t !== T.FALSE && I.decide(t, node))) return i;
    }
    return -1;
  }
  function collHas(o, key, node) {
    if (I.pure) {
      let r = o.base ? o.base.has(key) : T.FALSE;
      for (const e of o.data.v) r = T.ite(I.strictEq(e.key, key, node), T.bool(!e.deleted), r);
      return r;
    }
    const i = findEntry(o, key, node);
    if (i >= 0) return T.bool(!o.data.v[i].deleted);
    return o.base ? o.base.has(key) : T.FALSE;
  }
  function collGet(o, key, node) {
    if (I.pure) {
      let r = o.base ? o.base.get(key) : UNDEF;
      for (const e of o.data.v) r = e.deleted ? r : choose(I.strictEq(e.key, key, node), e.val, r);
      return r;
    }
    const i = findEntry(o, key, node);
    if (i >= 0) return o.data.v[i].deleted ? UNDEF : o.data.v[i].val;
    if (o.base) return I.decide(o.base.has(key), node) ? o.base.get(key) : UNDEF;
    return UNDEF;
  }
  function collSet(o, key, val, node) {
    const i = findEntry(o, key, node);
    const es = [...o.data.v];
    if (i >= 0 && !es[i].deleted) es[i] = { key: es[i].key, val };
    else {
      if (i >= 0) es.splice(i, 1);
      es.push({ key, val });
    }
    o.data.v = es;
  }
  function collDelete(o, key, node) {
    const i = findEntry(o, key, node);
    const es = [...o.data.v];
    if (i >= 0) {
      if (es[i].deleted) return FALSE;
      if (o.base) es[i] = { key: es[i].key, deleted: true };
      else es.splice(i, 1);
      o.data.v = es;
      return TRUE;
    }
    if (o.base) {
      const h = o.base.has(key);
      o.data.v = [...es, { key, deleted: true }];
      return B(h);
    }
    return FALSE;
  }
  const live = (o, node) => {
    if (o.base) I.oof(node, "iteration over a symbolic collection");
    return o.data.v.filter((e) => !e.deleted);
  };
  function mapProp(b, key, node) {
    switch (key) {
      case "size": {
        if (b.o.base) I.oof(node, "size of a symbolic collection");
        return N(live(b.o, node).length);
      }
      case "has":
        return fn("has", (s, [k], node) => B(collHas(s.o, k ?? UNDEF, node)));
      case "get":
        return fn("get", (s, [k], node) => collGet(s.o, k ?? UNDEF, node));
      case "set":
        return fn("set", (s, [k, v], node) => {
          collSet(s.o, k, v ?? UNDEF, node);
          return s;
        });
      case "add":
        return fn("add", (s, [k], node) => {
          if (collHas(s.o, k, node) === T.TRUE) return s;
          collSet(s.o, k, TRUE, node);
          return s;
        });
      case "delete":
        return fn("delete", (s, [k], node) => collDelete(s.o, k ?? UNDEF, node));
      case "clear":
        return fn("clear", (s) => {
          s.o.data.v = [];
          s.o.base = null;
          return UNDEF;
        });
      case "keys":
        return fn("keys", (s, a, node) => iter(live(s.o, node).map((e) => e.key), node));
      case "values":
        return fn("values", (s, a, node) => iter(live(s.o, node).map((e) => s.o.tag === "set" ? e.key : e.val), node));
      case "entries":
        return fn("entries", (s, a, node) => iter(live(s.o, node).map((e) => I.list([e.key, s.o.tag === "set" ? e.key : e.val], node)), node));
      case "forEach":
        return gfn("forEach", function* (s, [f], node) {
          for (const e of live(s.o, node)) yield* I.call(f, UNDEF, [s.o.tag === "set" ? e.key : e.val, e.key], node);
          return UNDEF;
        });
      case "union":
        return fn("union", (s, [o2], node) => {
          const o = coll("set", node);
          for (const e of [...live(s.o, node), ...live(o2.o, node)]) collSet(o, e.key, TRUE, node);
          return { k: "obj", o };
        });
    }
    return undefined;
  }
  function iter(items, node) {
    const o = I.newObj("iter", node);
    o.items = items;
    o.pos = 0;
    return { k: "obj", o };
  }
  const iterHelper = (f) => gfn("iter", function* (s, args, node) {
    return f(s, args, node);
  });
  function* iterProp(b, key, node) {
    if (key === "next") {
      return fn("next", (s, a, node) => {
        const d = s.o.pos >= s.o.items.length;
        return I.obj({ done: B(T.bool(d)), value: d ? UNDEF : s.o.items[s.o.pos++] }, node);
      });
    }
    const l = I.list(b.o.items.slice(b.o.pos), node);
    if (key === "toArray") return fn("toArray", () => l);
    const m = yield* arrProp(l, key, node);
    return m ? nat(key, function* (I, s, args, node) {
      return yield* I.call(m, l, args, node);
    }) : undefined;
  }
  const MapC = nat("Map", null, {
    *construct(args, node) {
      const o = coll("map", node);
      if (args[0] && args[0].k !== "undef" && args[0].k !== "null") {
        for (const e of I.elements(args[0], node)) {
          const [k, v] = I.elements(e, node);
          collSet(o, k, v ?? UNDEF, node);
        }
      }
      return { k: "obj", o };
    },
    *superInit(self, args, node) {
      self.o.tag = "map";
      self.o.entries = true;
      self.o.data = I.cell(self.o.name + ".entries", []);
    },
    statics: {
      groupBy: gfn("groupBy", function* (s, [items, f], node) {
        const o = coll("map", node);
        for (const x of I.elements(items, node)) {
          const k = yield* I.call(f, UNDEF, [x], node);
          const cur = collGet(o, k, node);
          if (cur.k === "undef") collSet(o, k, I.list([x], node), node);
          else cur.o.data.v = { list: [...cur.o.data.v.list, x] };
        }
        return { k: "obj", o };
      }),
    },
    isInstance: (v) => v.k === "obj" && v.o.tag === "map",
  });
  const SetC = nat("Set", null, {
    *construct(args, node) {
      const o = coll("set", node);
      if (args[0] && args[0].k !== "undef" && args[0].k !== "null") for (const e of I.elements(args[0], node)) if (collHas(o, e, node) !== T.TRUE) collSet(o, e, TRUE, node);
      return { k: "obj", o };
    },
    isInstance: (v) => v.k === "obj" && v.o.tag === "set",
  });

  // ---- promises ----
  const settleFns = (p, node) => [
    nat("resolve", function* (I, s, [v]) {
      const then = v && v.k === "obj" && v.o.tag === "obj" && v.o.cls ? I.findMember(v.o.cls, "then") : null;
      if (then) I.oof(node, "thenable");
      I.resolvePromise(p, v ?? UNDEF);
      return UNDEF;
    }),
    nat("reject", function* (I, s, [v]) {
      I.rejectPromise(p, v ?? UNDEF);
      return UNDEF;
    }),
  ];
  function thenOf(p, onF, onR, node) {
    const q = I.newPromise(node);
    const run = (f, state) => (x) => {
      if (!f || f.k === "undef" || f.k === "null") {
        if (state === "fulfilled") I.resolvePromise(q, x);
        else I.rejectPromise(q, x);
        return;
      }
      const g = (function* () {
        return yield* I.call(f, UNDEF, [x], node);
      })();
      I.drive(g, q);
    };
    I.subscribe(p, run(onF, "fulfilled"), run(onR, "rejected"));
    return q;
  }
  function promiseProp(b, key, node) {
    switch (key) {
      case "then":
        return fn("then", (s, [f, r], node) => thenOf(s, f, r, node));
      case "catch":
        return fn("catch", (s, [r], node) => thenOf(s, UNDEF, r, node));
      case "finally":
        return fn("finally", (s, [f], node) => {
          const q = I.newPromise(node);
          const run = (state) => (x) => {
            const p0 = I.newPromise(node);
            const g = (function* () {
              return yield* I.call(f, UNDEF, [], node);
            })();
            I.drive(g, p0);
            I.subscribe(p0, () => state === "fulfilled" ? I.resolvePromise(q, x) : I.rejectPromise(q, x), (e) => I.rejectPromise(q, e));
          };
          I.subscribe(s, run("fulfilled"), run("rejected"));
          return q;
        });
    }
    return undefined;
  }
  const PromiseC = nat("Promise", null, {
    *construct([ex], node) {
      const p = I.newPromise(node);
      const [res, rej] = settleFns(p, node);
      try {
        yield* I.call(ex, UNDEF, [res, rej], node);
      } catch (e) {
        if (!(e instanceof JSThrow)) throw e;
        I.rejectPromise(p, e.v);
      }
      return p;
    },
    statics: {
      resolve: fn("resolve", (s, [v], node) => I.toPromise(v ?? UNDEF, node)),
      reject: fn("reject", (s, [v], node) => {
        const p = I.newPromise(node);
        I.rejectPromise(p, v ?? UNDEF);
        return p;
      }),
      withResolvers: fn("withResolvers", (s, a, node) => {
        const p = I.newPromise(node);
        const [res, rej] = settleFns(p, node);
        return I.obj({ promise: p, resolve: res, reject: rej }, node);
      }),
      all: fn("all", (s, [l], node) => {
        const items = I.elements(l, node), out = items.map(() => UNDEF);
        const q = I.newPromise(node);
        let left = items.length;
        if (!left) I.resolvePromise(q, I.list([], node));
        items.forEach((x, i) =>
          I.subscribe(I.toPromise(x, node), (v) => {
            out[i] = v;
            if (--left === 0) I.resolvePromise(q, I.list(out, node));
          }, (e) => I.rejectPromise(q, e))
        );
        return q;
      }),
      allSettled: fn("allSettled", (s, [l], node) => {
        const items = I.elements(l, node), out = items.map(() => UNDEF);
        const q = I.newPromise(node);
        let left = items.length;
        if (!left) I.resolvePromise(q, I.list([], node));
        const done = (i, v) => {
          out[i] = v;
          if (--left === 0) I.resolvePromise(q, I.list(out, node));
        };
        items.forEach((x, i) => I.subscribe(I.toPromise(x, node), (v) => done(i, I.obj({ status: S("fulfilled"), value: v })), (e) => done(i, I.obj({ status: S("rejected"), reason: e }))));
        return q;
      }),
      race: fn("race", (s, [l], node) => {
        const q = I.newPromise(node);
        for (const x of I.elements(l, node)) I.subscribe(I.toPromise(x, node), (v) => I.resolvePromise(q, v), (e) => I.rejectPromise(q, e));
        return q;
      }),
    },
    isInstance: (v) => v.k === "obj" && v.o.tag === "promise",
  });

  // ---- errors ----
  const errClass = (name, parent) => {
    const c = nat(name, function* (I, s, args, node) {
      return yield* c.construct(args, node);
    }, {
      parent,
      *construct(args, node) {
        return I.err(name, args[0] && args[0].k === "str" ? args[0] : "", node);
      },
      *superInit(self, args) {
        self.o.err = name;
        I.setField(self.o, "message", args[0] ?? S(""));
        I.setField(self.o, "name", S(name));
        if (args[1]?.k === "obj" && args[1].o.fields.has("cause")) I.setField(self.o, "cause", args[1].o.fields.get("cause").v);
      },
      isInstance: (v) => {
        if (v.k !== "obj") return false;
        let n = v.o.err;
        for (let e = errs[n]; e; e = e.parent) if (e === c) return true;
        return false;
      },
      statics: { captureStackTrace: fn("captureStackTrace", () => UNDEF) },
    });
    return c;
  };
  const errs = {};
  errs.Error = errClass("Error", null);
  for (const n of ["TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "AggregateError", "DOMException"]) errs[n] = errClass(n, errs.Error);

  // ---- Math, Number, BigInt ... ----
  const minmax = (name) => fn(name, (s, args, node) => {
    if (args.length === 0) return name === "min" ? INF : N(T.num(-(10n ** 400n)));
    let r = args[0];
    for (const a of args.slice(1)) {
      if (a.k !== "num" || r.k !== "num") return { k: "nan" };
      const x = T.mul(r.t, a.d ?? T.ONE), y = T.mul(a.t, r.d ?? T.ONE);
      const c = name === "min" ? T.le(x, y) : T.ge(x, y);
      if (!r.d && !a.d) {
        const cs = I.simp(c);
        if (cs === T.TRUE || cs === T.FALSE || I.pure || T.hasBv(c)) r = N(T.ite(cs, r.t, a.t));
        else {
          // the maximum is named, so that it does not multiply through later terms
          const m = T.freshVar(name);
          for (const z of [r.t, a.t]) I.X.assume(name === "min" ? T.le(m, z) : T.ge(m, z));
          I.X.assume(T.or(T.eq(m, r.t), T.eq(m, a.t)));
          r = N(m);
        }
      } else r = I.decide(c, node) ? r : a;
    }
    return r;
  });
  const INF = N(T.num(10n ** 400n));
  const MathO = nat("Math", null, {
    statics: {
      floor: fn("floor", (s, [a], node) => a.k !== "num" ? a.k === "nan" ? a : I.oof(node, "Math.floor") : a.d ? N(T.div(a.t, a.d)) : a),
      trunc: fn("trunc", (s, [a], node) => N(I.toInt(a, node))),
      ceil: fn("ceil", (s, [a], node) => a.k === "nan" ? a : a.d ? N(T.neg(T.div(T.neg(a.t), a.d))) : a),
      round: fn("round", (s, [a], node) => a.d ? N(T.div(T.add(T.scale(a.t, 2n), a.d), T.scale(a.d, 2n))) : a),
      abs: fn("abs", (s, [a], node) => {
        if (a.t.lo !== null && a.t.lo >= 0n) return a;
        return { ...a, t: T.ite(T.ge(a.t, T.ZERO), a.t, T.neg(a.t)) };
      }),
      sign: fn("sign", (s, [a]) => N(T.ite(T.gt(a.t, T.ZERO), T.ONE, T.ite(T.lt(a.t, T.ZERO), T.num(-1), T.ZERO)))),
      min: minmax("min"),
      max: minmax("max"),
      pow: fn("pow", (s, [a, b], node) => I.arith("**", a, b, node)),
      random: fn("random", (s, a, node) => {
        const d = T.num(1n << 53n);
        return { k: "num", t: T.freshVar("random", "Int", 0n, (1n << 53n) - 1n), d };
      }),
      log: fn("log", (s, a, node) => I.oof(node, "Math.log")),
    },
  });
  const NumberO = nat("Number", function* (I, self, [a], node) {
    if (!a) return N(0);
    if (a.k === "num" || a.k === "nan") return a;
    if (a.k === "big") {
      const L = T.num(1n << 53n);
      const t = a.t;
      if (t.lo !== null && t.hi !== null && t.lo >= -(1n << 53n) && t.hi <= 1n << 53n) return N(t);
      if (I.pure || I.decide(T.and(T.le(T.neg(L), t), T.le(t, L)), node)) return N(t);
      // rounding: some number of the same sign beyond 2^53
      const r = T.freshVar("rounded");
      I.X.assume(T.ite(T.ge(t, T.ZERO), T.ge(r, L), T.le(r, T.neg(L))));
      return N(r);
    }
    if (a.k === "bool") return N(T.ite(a.t, T.ONE, T.ZERO));
    if (a.k === "undef") return { k: "nan" };
    if (a.k === "null") return N(0);
    if (a.k === "str" && a.lit !== undefined) {
      const x = Number(a.lit);
      if (Number.isInteger(x)) return N(BigInt(x));
      if (Number.isNaN(x)) return { k: "nan" };
    }
    if (a.k === "str" && I.str.number(a)) return N(I.str.number(a));
    I.oof(node, "Number of " + kindName(a));
  }, {
    statics: {
      isInteger: fn("isInteger", (s, [a]) => a.k !== "num" ? FALSE : a.d ? B(T.eq(T.mod(a.t, a.d), T.ZERO)) : TRUE),
      isSafeInteger: fn("isSafeInteger", (s, [a]) => {
        if (a.k !== "num") return FALSE;
        const M = T.num((1n << 53n) - 1n);
        if (a.d) return B(T.and(T.eq(T.mod(a.t, a.d), T.ZERO), T.le(T.div(a.t, a.d), M), T.ge(T.div(a.t, a.d), T.neg(M))));
        return B(T.and(T.le(T.neg(M), a.t), T.le(a.t, M)));
      }),
      isNaN: fn("isNaN", (s, [a]) => B(T.bool(a.k === "nan"))),
      isFinite: fn("isFinite", (s, [a]) => B(T.bool(a.k === "num" && a !== INF))),
      MAX_SAFE_INTEGER: N((1n << 53n) - 1n),
      MIN_SAFE_INTEGER: N(-((1n << 53n) - 1n)),
      parseInt: fn("parseInt", (s, a, node) => I.oof(node, "parseInt")),
      POSITIVE_INFINITY: INF,
    },
  });
  const BigIntO = nat("BigInt", function* (I, self, [a], node) {
    if (a.k === "big") return a;
    if (a.k === "num") {
      if (a.d) {
        if (I.decide(T.eq(T.mod(a.t, a.d), T.ZERO), node)) return BIG(T.div(a.t, a.d));
        I.throwErr("RangeError", "not an integer", node);
      }
      return BIG(a.t);
    }
    if (a.k === "bool") return BIG(T.ite(a.t, T.ONE, T.ZERO));
    if (a.k === "str" && a.lit !== undefined) {
      try {
        return BIG(BigInt(a.lit));
      } catch {
        I.throwErr("SyntaxError", "BigInt", node);
      }
    }
    if (a.k === "str" && I.str.number(a)) return BIG(I.str.number(a));
    if (a.k === "str") return BIG(T.app(T.declFn("strToBig", 1), [a.t]));
    if (a.k === "nan") I.throwErr("RangeError", "NaN", node);
    I.throwErr("TypeError", "Cannot convert to a BigInt", node);
  }, {
    statics: {
      asUintN: fn("asUintN", (s, [n, a], node) => n.t.op === "num" ? BIG(T.ext(a.t, 0, Number(n.t.c))) : I.oof(node, "asUintN")),
      asIntN: fn("asIntN", (s, [n, a], node) => {
        if (n.t.op !== "num") I.oof(node, "asIntN");
        const w = Number(n.t.c);
        const u = T.ext(a.t, 0, w);
        return BIG(T.ite(T.ge(u, T.num(1n << BigInt(w - 1))), T.sub(u, T.num(1n << BigInt(w))), u));
      }),
    },
  });
  const plainKeys = (o, node) => {
    if (o.tag === "arr") return I.elements({ k: "obj", o }, node).map((_, i) => String(i));
    return [...o.fields.keys()].filter((k) => !k.startsWith("#") && !k.startsWith("@@"));
  };
  const ObjectO = nat("Object", null, {
    statics: {
      keys: fn("keys", (s, [a], node) => I.list(plainKeys(a.o, node).map(S), node)),
      values: fn("values", (s, [a], node) => I.list(plainKeys(a.o, node).map((k) => a.o.fields.get(k).v), node)),
      entries: fn("entries", (s, [a], node) => I.list(plainKeys(a.o, node).map((k) => I.list([S(k), a.o.fields.get(k).v], node)), node)),
      assign: fn("assign", (s, [a, ...r], node) => {
        for (const b of r) if (b.k === "obj") for (const [k, c] of b.o.fields) a.k === "fn" || a.k === "bound" ? (a.props ??= new Map()).set(k, I.cell(a.name + "." + k, c.v)) : a.k === "native" ? (a.statics ??= {})[k] = c.v : I.setField(a.o, k, c.v);
        return a;
      }),
      freeze: fn("freeze", (s, [a]) => a),
      fromEntries: fn("fromEntries", (s, [a], node) => {
        const o = I.newObj("obj", node);
        for (const e of I.elements(a, node)) {
          const [k, v] = I.elements(e, node);
          I.setField(o, I.keyOf(k, node), v);
        }
        return { k: "obj", o };
      }),
      hasOwn: fn("hasOwn", (s, [a, k], node) => B(T.bool(a.o.fields.has(I.keyOf(k, node))))),
      create: fn("create", (s, [a], node) => I.obj({}, node)),
      setPrototypeOf: fn("setPrototypeOf", (s, [a]) => a),
      getPrototypeOf: fn("getPrototypeOf", (s, [a], node) => a.o.cls ?? (a.o.tag === "obj" ? OBJECT_PROTO : { k: "native", name: a.o.tag + ".prototype", statics: {} })),
      prototype: OBJECT_PROTO,
      is: fn("is", (s, [a, b], node) => B(I.strictEq(a, b, node))),
    },
    *construct(args, node) {
      return I.obj({}, node);
    },
  });
  const ideal = installCrypto(I, { fn, gfn, nat, S, N, UNDEF, isBytes });
  const cryptoO = nat("crypto", null, {
    statics: {
      getRandomValues: fn("getRandomValues", (s, [a], node) => {
        if (!isBytes(a)) I.oof(node, "getRandomValues");
        const f = T.freshFn("rnd", 1, "Int", 0n, 255n);
        writeBytes(a.o, T.ZERO, a.o.len, (i) => T.app(f, [i]));
        I.X.rndDraws?.push({ sel: (i) => T.app(f, [i]), len: a.o.len });
        return a;
      }),
      randomUUID: fn("randomUUID", () => ({ k: "str", t: T.freshVar("uuid") })),
      subtle: nat("subtle", null, { statics: ideal.subtle }),
    },
  });
  // Dates carry a non-negative number of milliseconds
  function newDate(t, node) {
    const o = I.newObj("date", node);
    o.t = t;
    return { k: "obj", o };
  }
  const DateC = nat("Date", null, {
    *construct(args, node) {
      if (args.length === 0) return newDate(N(I.X.now()), node);
      if (args[0].k === "num") return newDate(args[0], node);
      if (args[0].k === "obj" && args[0].o.tag === "date") return newDate(args[0].o.t, node);
      I.oof(node, "Date");
    },
    statics: { now: fn("now", () => N(I.X.now())) },
    isInstance: (v) => v.k === "obj" && v.o.tag === "date",
  });
  const timers = (name) => fn(name, (s, [f, ms], node) => {
    const id = ++I.timerN;
    I.timers.push({ id, f, name, ms: ms?.k === "num" && ms.t.op === "num" ? Number(ms.t.c) : ms === undefined || ms.k === "undef" ? 0 : NaN });
    return N(id);
  });
  I.timerN = 0;
  I.timers = [];
  const symbols = {};
  const SymbolO = nat("Symbol", function* (I, s, [d], node) {
    return { k: "sym", name: (d?.lit ?? "") + "#" + (++I.objN) };
  }, {
    statics: Object.fromEntries(["iterator", "asyncIterator", "dispose", "asyncDispose", "toStringTag", "hasInstance"].map((n) => [n, symbols[n] = { k: "sym", name: n }])),
  });
  SymbolO.statics.for = fn("for", (s, [d]) => ({ k: "sym", name: "for:" + d.lit }));
  const textId = (name) => T.declFn(name, 1);
  const StringO = nat("String", function* (I, s, [a], node) {
    return a ? I.strOf(a, node) : S("");
  }, {
    statics: {
      fromCharCode: fn("fromCharCode", (s, args, node) => args.every((a) => a.t?.op === "num") ? S(String.fromCharCode(...args.map((a) => Number(a.t.c)))) : I.oof(node, "fromCharCode")),
      raw: fn("raw", (s, a, node) => I.oof(node, "String.raw")),
    },
  });
  const noop = fn("noop", () => UNDEF);
  const consoleO = nat("console", null, { statics: Object.fromEntries(["log", "error", "warn", "info", "debug", "trace"].map((n) => [n, noop])) });
  const abortSignal = () => {};
  const globals = {
    Uint8Array: Uint8ArrayC,
    ArrayBuffer: ArrayBufferC,
    DataView: DataViewC,
    Array: ArrayC,
    Map: MapC,
    Set: SetC,
    WeakMap: MapC,
    Promise: PromiseC,
    Math: MathO,
    Number: NumberO,
    BigInt: BigIntO,
    Object: ObjectO,
    String: StringO,
    Boolean: fn("Boolean", (s, [a]) => B(I.truthy(a ?? UNDEF))),
    Symbol: SymbolO,
    Date: DateC,
    crypto: cryptoO,
    console: consoleO,
    Infinity: INF,
    NaN: { k: "nan" },
    setTimeout: timers("setTimeout"),
    setInterval: timers("setInterval"),
    clearTimeout: fn("clearTimeout", (s, [id]) => {
      if (id?.k === "num") I.timers = I.timers.filter((t) => T.num(t.id) !== id.t);
      return UNDEF;
    }),
    queueMicrotask: fn("queueMicrotask", (s, [f], node) => {
      I.micro.push(() => I.drive((function* () {
        return yield* I.call(f, UNDEF, [], node);
      })(), I.newPromise(node)));
      return UNDEF;
    }),
    isNaN: NumberO.statics.isNaN,
    parseInt: fn("parseInt", (s, [a, radix], node) => {
      if (a.k === "num" && !a.d) return a;
      if (a.k === "str" && I.str.number(a)) return N(I.str.number(a));
      if (a.k !== "str" || a.lit === undefined) I.oof(node, "parseInt of a symbolic string");
      const v = parseInt(a.lit, radix?.t ? Number(radix.t.c) : undefined);
      return Number.isNaN(v) ? { k: "nan" } : N(BigInt(v));
    }),
    parseFloat: fn("parseFloat", (s, [a], node) => {
      if (a.k !== "str" || a.lit === undefined) I.oof(node, "parseFloat of a symbolic string");
      const v = parseFloat(a.lit);
      return Number.isNaN(v) ? { k: "nan" } : Number.isInteger(v) ? N(BigInt(v)) : I.oof(node, "parseFloat fraction");
    }),
    isFinite: NumberO.statics.isFinite,
    ...errs,
  };
  globals.clearInterval = globals.clearTimeout;
  globals.Buffer = undefined;
  delete globals.Buffer;
  globals.globalThis = nat("globalThis", null, { statics: globals });
  globals.TextEncoder = nat("TextEncoder", null, {
    *construct(args, node) {
      const o = I.newObj("textenc", node);
      return { k: "obj", o };
    },
  });
  globals.TextDecoder = nat("TextDecoder", null, {
    *construct(args, node) {
      const o = I.newObj("textdec", node);
      return { k: "obj", o };
    },
  });

  I.regexOf = (text) => ({
    k: "opaque",
    type: "RegExp",
    t: T.freshVar("re"),
    re: text,
    instanceOf: (c) => T.bool(c.name === "RegExp"),
    props: (key) => {
      if (key === "test") return fn(key, (_s, [x], node) => x?.k === "str" && x.lit !== undefined ? B(T.bool(eval(text).test(x.lit))) : I.oof(node, "pattern over symbolic text"));
      if (key === "source") return S(eval(text).source);
      return undefined;
    },
  });
  globals.RegExp = nat("RegExp", null, {
    *construct([src, flags], node) {
      if (src?.k !== "str" || src.lit === undefined || (flags && flags.k !== "undef" && flags.lit === undefined)) I.oof(node, "RegExp");
      return I.regexOf(String(new RegExp(src.lit, flags?.lit ?? "")));
    },
  });

  function strProp(b, key, node) {
    const lit = b.lit;
    if (typeof key !== "string") {
      if (key.k === "num" && key.t.op === "num" && lit !== undefined) {
        const c = lit[Number(key.t.c)];
        return c === undefined ? UNDEF : S(c);
      }
      const c = key.k === "num" ? I.str.charAt(b, key.t) : null;
      if (c) return c;
      I.oof(node, "string index");
    }
    if (key === "length") {
      if (lit !== undefined) return N(lit.length);
      return N(I.str.lenOf(b));
    }
    if (lit === undefined && key === "toString") return fn(key, (s) => s);
    if (typeof lit === "string" && typeof lit[key] === "function") {
      return fn(key, (s, args, node) => {
        if (key === "startsWith" && args[0]?.k === "str" && args[0].lit === undefined) return B(I.str.startsWith(s, args[0]));
        if (key === "split" || key === "replace" || key === "replaceAll" || key === "match" || key === "matchAll" || key === "search") {
          const as = args.map((a) => a.k === "str" && a.lit !== undefined ? a.lit : a.re ? eval(a.re) : a.k === "num" && a.t.op === "num" ? Number(a.t.c) : I.oof(node, key));
          const r = s.lit[key](...as);
          if (typeof r === "string") return S(r);
          if (typeof r === "number") return N(r);
          if (r === null) return NULL;
          return I.list([...r].map((x) => x === undefined ? UNDEF : S(String(x))), node);
        }
        const as = args.map((a) => {
          if (a.k === "str" && a.lit !== undefined) return a.lit;
          if (a.k === "num" && a.t.op === "num" && !a.d) return Number(a.t.c);
          if (a.k === "undef") return undefined;
          I.oof(node, "string method on symbolic arguments");
        });
        const r = s.lit[key](...as);
        if (typeof r === "string") return S(r);
        if (typeof r === "number") return Number.isNaN(r) ? { k: "nan" } : N(r);
        if (typeof r === "boolean") return B(T.bool(r));
        if (r === undefined) return UNDEF;
        I.oof(node, "string method " + key);
      });
    }
    if (key === "startsWith") return fn(key, (s, [a], node) => B(I.str.startsWith(s, I.strOf(a, node))));
    if (key === "indexOf") {
      return fn(key, (s, [a, from], node) => {
        const r = a.lit !== undefined ? I.str.indexOf(s, a.lit, from?.k === "num" ? from.t : T.ZERO) : null;
        return r ? N(r) : I.oof(node, "indexOf in symbolic text");
      });
    }
    if (["endsWith", "includes"].includes(key)) {
      return fn(key, (s, [a], node) => B(T.app(T.declFn("str_" + key, 2, "Bool"), [s.t, I.strOf(a, node).t])));
    }
    if (["slice", "substring", "trim", "trimEnd", "trimStart", "toLowerCase", "toUpperCase", "replace", "replaceAll"].includes(key)) {
      return fn(key, (s, args, node) => {
        if ((key === "slice" || key === "substring") && args.every((a) => a.k === "num" || a.k === "undef")) {
          const r = I.str.slice(s, args[0]?.t ?? T.ZERO, args[1]?.t);
          if (r) return r;
        }
        const ts = args.map((a) => a.k === "num" ? a.t : a.k === "str" ? a.t : a.k === "undef" ? T.num(-7777) : I.oof(node, key));
        const name = "str_" + key + ts.length;
        const trim = key.startsWith("trim");
        if (trim && s.t.op === "app" && s.t.fn.name === name) return s;
        const r = T.app(T.declFn(name, 1 + ts.length), [s.t, ...ts]);
        if (trim) {
          const ul = T.declFn("utf8len", 1, "Int", 0n, (1n << 31n) - 1n);
          I.X.assume(T.le(T.app(ul, [r]), T.app(ul, [s.t])));
        }
        return { k: "str", t: r };
      });
    }
    I.oof(node, "string." + key);
  }

  function* getProp(I, b, key, node) {
    if (b.k === "str") return strProp(b, key, node);
    if (b.k === "num" || b.k === "big" || b.k === "bool") {
      if (key === "toString") return fn("toString", (s, [r], node) => {
        if (r && !(r.k === "num" && r.t === T.num(10))) {
          if (s.t.op === "num" && r.t.op === "num") return S(s.t.c.toString(Number(r.t.c)));
          return { k: "str", t: T.app(T.declFn("numToStrR", 2), [s.t, r.t]) };
        }
        return I.strOf(s, node);
      });
      if (key === "toFixed") I.oof(node, "toFixed");
      if (key === "valueOf") return fn("valueOf", (s) => s);
      return UNDEF;
    }
    if (b.k === "fn" || b.k === "native" || b.k === "bound") {
      if (key === "call") return gfn("call", function* (s, [t, ...as], node) {
        return yield* I.call(s, t ?? UNDEF, as, node);
      });
      if (key === "apply") return gfn("apply", function* (s, [t, l], node) {
        return yield* I.call(s, t ?? UNDEF, l && l.k === "obj" ? I.elements(l, node) : [], node);
      });
      if (key === "bind") return fn("bind", (s, [t, ...as]) => ({ k: "bound", f: s, thisV: t, args: as, name: s.name }));
      if (key === "name") return S(b.name ?? "");
      if (key === "length") return N(b.node?.parameters?.length ?? 0);
      return b.k === "fn" ? UNDEF : undefined;
    }
    if (b.k === "opaque") {
      if (b.props) {
        const r = b.props(key, node);
        if (r !== undefined) return r;
      }
      return undefined;
    }
    if (b.k !== "obj") return undefined;
    switch (b.o.tag) {
      case "bytes":
        return bytesProp(b, key, node);
      case "arr":
        return yield* arrProp(b, key, node);
      case "buf":
        if (key === "byteLength") return N(b.o.len);
        if (key === "slice") {
          return fn("slice", (s, args, node) => {
            const [off, n] = span(args, s.o.len, node);
            const sel = s.o.data.v.sel;
            return { k: "obj", o: I.newBuf(n, (i) => sel(T.add(off, i)), node) };
          });
        }
        return undefined;
      case "view": {
        if (key === "byteLength") return N(b.o.len);
        if (key === "byteOffset") return N(b.o.off);
        if (key === "buffer") return { k: "obj", o: b.o.buf };
        const m = typeof key === "string" && VIEW.exec(key);
        if (m) return fn(key, (s, args, node) => dataView(m[1], m[2], s, args, node));
        return undefined;
      }
      case "map":
      case "set":
        return typeof key === "string" ? mapProp(b, key, node) : undefined;
      case "promise":
        return promiseProp(b, key, node);
      case "iter":
        return yield* iterProp(b, key, node);
      case "date":
        if (key === "getTime" || key === "valueOf") return fn(key, (s) => s.o.t);
        return undefined;
      case "gen":
        return b.o.proto?.(key, node);
      case "textenc":
        if (key === "encode") {
          return fn("encode", (s, [str], node) => I.encodeText(str, node));
        }
        return undefined;
      case "textdec":
        if (key === "decode") return fn("decode", (s, [b2], node) => I.decodeText(b2, node));
        return undefined;
    }
    return undefined;
  }
  // UTF-8: an uninterpreted injection of strings into byte strings. Decoding inverts encoding; text longer
  // than any bound is covered because the length is symbolic.
  I.encodeText = (str, node) => {
    if (str.lit !== undefined) {
      const u = new TextEncoder().encode(str.lit);
      const r = I.newBytes(T.num(u.length), (i) => pick([...u].map((x) => T.num(x)), i), node);
      r.o.text = str;
      return r;
    }
    if (I.X.texts && !I.X.texts.includes(str.t)) I.X.texts.push(str.t);
    const len = T.app(T.declFn("utf8len", 1, "Int", 0n, (1n << 31n) - 1n), [str.t]);
    const f = T.declFn("utf8at", 2, "Int", 0n, 255n);
    const r = I.newBytes(len, (i) => T.app(f, [str.t, i]), node);
    r.o.text = str;
    return r;
  };
  I.decodeText = (b, node) => {
    // the decoded string is a function of the bytes: same bytes as some encoded text => that text
    const len = b.o.len, sel = I.bytesSel(b.o);
    if (len.op === "num" && len.c <= 4096n) {
      const bs = [];
      for (let i = 0n; i < len.c; i++) {
        const t = I.simp(sel(T.num(i)));
        if (t.op !== "num") break;
        bs.push(Number(t.c));
      }
      if (bs.length === Number(len.c)) return S(new TextDecoder().decode(new Uint8Array(bs)));
    }
    const s = T.freshVar("text");
    const uf = T.declFn("utf8at", 2, "Int", 0n, 255n), ul = T.declFn("utf8len", 1, "Int", 0n, (1n << 31n) - 1n);
    for (const known of I.X.texts ?? []) {
      const k = T.freshBound();
      const same = T.and(T.eq(len, T.app(ul, [known])), T.forall([k], T.implies(T.and(T.le(T.ZERO, k), T.lt(k, len)), T.eq(sel(k), T.app(uf, [known, k])))));
      // (bytes equal) => decoded text equal ; contrapositive form keeps the quantifier skolemised
      I.X.assume(T.or(T.not(same), T.eq(s, known)));
    }
    return { k: "str", t: s };
  };

  function* setProp(I, b, key, v, node) {
    const o = b.o;
    if (o.tag === "bytes") {
      if (typeof key !== "string" && key.k === "num") {
        if (key.d) I.oof(node, "fractional index");
        if (I.decide(T.and(T.ge(key.t, T.ZERO), T.lt(key.t, o.len)), node)) {
          const x = toByte(v, node);
          writeBytes(o, key.t, T.ONE, () => x);
        }
        return true;
      }
      if (typeof key === "string") {
        I.setField(o, key, v);
        return true;
      }
      return true;
    }
    if (o.tag === "arr") {
      if (key === "length") {
        const n = v.t;
        if (o.data.v.list && n.op === "num") o.data.v = { list: o.data.v.list.slice(0, Number(n.c)) };
        else o.data.v = n.op === "num" && n.c === 0n ? { list: [] } : { ...asSym(o), len: n };
        return true;
      }
      if (typeof key !== "string" && key.k === "num") {
        const i = key.t;
        if (o.data.v.list && i.op === "num" && i.c >= 0n && Number(i.c) <= o.data.v.list.length) {
          const l = [...o.data.v.list];
          l[Number(i.c)] = v;
          o.data.v = { list: l };
          return true;
        }
        const { len, at } = asSym(o);
        if (I.decide(T.and(T.ge(i, T.ZERO), T.lt(i, len)), node)) o.data.v = { len, at: (j) => choose(T.eq(j, i), v, at(j)) };
        else if (I.decide(T.eq(i, len), node)) o.data.v = { len: T.add(len, T.ONE), at: (j) => choose(T.eq(j, i), v, at(j)) };
        else I.oof(node, "sparse array write");
        return true;
      }
      return false;
    }
    return false;
  }
  const objectProto = (I, b, key, node) => {
    if (key === "hasOwnProperty") return fn(key, (s, [k], node) => B(T.bool(s.o.fields.has(I.keyOf(k, node)))));
    if (key === "toString") return fn(key, () => S("[object Object]"));
    if (key === "constructor" && b.o.tag === "obj") return ObjectO;
    return null;
  };

  // ---- generators (sync and async), driven on demand ----
  function* generator(I, f, thisV, args, node) {
    const o = I.newObj("gen", node);
    const body = I.callBody({ ...f, isGen: false }, thisV, args, node);
    let done = false, running = Promise.resolve();
    let stack = I.callStack;
    const self = { k: "obj", o };
    const result = (v, d) => I.obj({ value: v, done: B(T.bool(d)) }, node);
    // runs the body until the next yield; await points go to `onAwait`
    const advance = (mode, v) => {
      const outer = I.callStack;
      I.callStack = stack;
      try {
        return mode === "throw" ? body.throw(new JSThrow(v)) : mode === "return" ? (done = true, { done: true, value: v }) : body.next(v);
      } finally {
        stack = I.callStack;
        I.callStack = outer;
      }
    };
    let inner = null;
    function* syncNext(mode, v) {
      if (done) return result(UNDEF, true);
      for (;;) {
        let r;
        try {
          r = advance(mode, v);
        } catch (e) {
          done = true;
          throw e;
        }
        if (r.done) {
          done = true;
          return result(r.value ?? UNDEF, true);
        }
        if ("yielded" in r.value) return result(r.value.yielded, false);
        I.oof(node, "yield* in a synchronous generator");
      }
    }
    const asyncNext = (mode, v) => {
      const p = I.newPromise(node);
      const go = (mode, v) => {
        if (done) {
          I.resolvePromise(p, result(UNDEF, true));
          return;
        }
        if (inner) {
          // delegate to yield* target
          const g = (function* () {
            const nx = yield* I.getProp(inner, "next", node);
            const q = yield* I.call(nx, inner, [], node);
            const r = yield { await: q };
            return r;
          })();
          const pr = I.newPromise(node);
          I.drive(g, pr);
          I.subscribe(pr, (r) => {
            const d = r.o.fields.get("done").v.t;
            if (d === T.TRUE) {
              inner = null;
              go("next", r.o.fields.get("value")?.v ?? UNDEF);
            } else I.resolvePromise(p, r);
          }, (e) => {
            inner = null;
            go("throw", e);
          });
          return;
        }
        let r;
        try {
          r = advance(mode, v);
        } catch (e) {
          done = true;
          if (!(e instanceof JSThrow)) throw e;
          I.rejectPromise(p, e.v);
          return;
        }
        if (r.done) {
          done = true;
          I.resolvePromise(p, result(r.value ?? UNDEF, true));
          return;
        }
        if ("yielded" in r.value) {
          I.subscribe(I.toPromise(r.value.yielded, node), (x) => I.resolvePromise(p, result(x, false)), (e) => go("throw", e));
          return;
        }
        if ("yieldStar" in r.value) {
          inner = r.value.yieldStar;
          go("next", UNDEF);
          return;
        }
        I.subscribe(I.toPromise(r.value.await, node), (x) => go("next", x), (e) => go("throw", e));
      };
      go(mode, v);
      return p;
    };
    o.proto = (key) => {
      if (key === "next") return f.isAsync ? fn("next", (s, [v]) => asyncNext("next", v ?? UNDEF)) : gfn("next", function* (s, [v]) {
        return yield* syncNext("next", v ?? UNDEF);
      });
      if (key === "return") return f.isAsync ? fn("return", (s, [v]) => asyncNext("return", v ?? UNDEF)) : gfn("return", function* (s, [v]) {
        done = true;
        return result(v ?? UNDEF, true);
      });
      if (key === "@@iterator" || key === "@@asyncIterator") return fn("self", (s) => s);
      return undefined;
    };
    return self;
  }

  const std = {
    unreachable: fn("unreachable", (s, [m], node) => I.throwErr("AssertionError", "unreachable", node)),
  };
  errs.AssertionError = errClass("AssertionError", errs.Error);
  return {
    globals,
    getProp,
    setProp,
    objectProto,
    generator,
    external: (spec, name) => std[name] ?? null,
    modules: null,
    tgcrypto: ideal.tg,
    nat,
    fn,
    gfn,
    coll,
    collGet,
    collSet,
    writeBytes,
    newDate,
    settleFns,
  };
}
