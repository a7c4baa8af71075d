// Path exploration, loop invariant inference (Houdini over templates and contract hints) and proof obligations.
import path from "node:path";
import * as T from "./term.mjs";
import * as SOL from "./solver.mjs";
import { B, BIG, FALSE, Interp, JSThrow, kindName, N, NULL, OutOfFragment, parseFile, PathEnd, S, Scope, strOfCode, SYM, TRUE, ts, UNDEF, where } from "./interp.mjs";
import { makeBuiltins } from "./builtins.mjs";

class Restart extends Error {}
export class Budget extends Error {}

const clauseMemo = new Map();
function clauses(t) {
  let c = clauseMemo.get(t);
  if (!c) clauseMemo.set(t, c = SOL.clausify(t, true));
  return c;
}

const PRELUDE = new URL("../spec/prelude.ts", import.meta.url).pathname;
export class Explorer {
  constructor(specFile, lemma, opts = {}) {
    this.specFile = specFile;
    this.lemma = lemma;
    this.opts = opts;
    this.cuts = new Set();
    this.mods = new Map(); // loop key -> Map(cell name -> [shape])
    this.dropped = new Set();
    this.kept = new Map();
    this.rounds = 0;
    this.coverage = new Set();
    this.obligations = new Map(); // id -> {...}
    this.loopsSeen = new Set();
    this.unsafe = new Map();
    this.trusted = new Set();
    this.deadline = Date.now() + (opts.budgetMs ?? 300000);
    this.asserts = new Map(); // name -> reached count
    this.paths = 0;
    this.dead = 0;
    this.pathLog = [];
    this.log = opts.log ?? (() => {});
    this.proved = new Map();
  }
  // -------- queries --------
  query(goalNeg, opt = {}) {
    // goalNeg: term assumed in addition to the facts
    const goals = clauses(goalNeg);
    const all = [];
    for (const f of this.facts) all.push(...clauses(f));
    const kept = opt.noSlice ? all : SOL.slice(all, goals);
    const copies = [...kept, ...goals].map((c) => c.vs.length ? { ...c } : c);
    const { ground, quants, total } = SOL.instantiate(copies, opt);
    const { text, decl } = SOL.script(ground);
    return { text, decl, ground, quants };
  }
  rawQuantText(q) {
    return SOL.script(q.ground, q.quants.map((c) => c.raw && !c.vs.length ? c.body : T.forall(c.vs, c.body))).text;
  }
  unsatWith(t, ms = 1500, opt = {}) {
    if (t === T.FALSE) return true;
    const q = this.query(t, opt);
    if (opt.nlMs && q.ground.some((g) => T.nonlinear(g))) ms = Math.min(ms, opt.nlMs);
    return SOL.quickCheck(q.text, ms) === "unsat";
  }
  proves(goal, ms = 2000) {
    if (goal === T.TRUE) return true;
    if (goal.op === "and") return goal.args.every((g) => this.proves(g, ms));
    if (this.factSet.has(goal)) return true;
    goal = this.ctx.simplify(goal);
    if (goal === T.TRUE || this.factSet.has(goal)) return true;
    if (goal.op === "and") return goal.args.every((g) => this.proves(g, ms));
    return this.unsatWith(T.not(goal), ms, { rounds: 3, cap: 2500, nlMs: this.opts.nlMs ?? 300 });
  }
  // a script of draws (for concrete replay) from a solver model of an unproved obligation
  counterexample(ob, ms = 4000) {
    const saveF = this.facts, saveS = this.factSet;
    this.facts = ob.facts;
    this.factSet = new Set(ob.facts);
    try {
      for (const cap of [9, 40, 300, null]) {
        const caps = [];
        const want = [];
        const ints = [];
        const bytesDraw = (sel, len, push) => {
          if (cap !== null && len.op !== "num") caps.push(T.le(len, T.num(cap)));
          const n = len.op === "num" ? Math.min(Number(len.c), 600) : cap ?? 24;
          const at = want.length;
          want.push(len);
          for (let i = 0; i < n; i++) want.push(sel(T.num(i)));
          push((vals) => {
            const l = Number(vals[at]);
            if (!(l <= 1 << 22)) return null;
            const out = [];
            for (let i = 0; i < l; i++) out.push(i < n ? Number(vals[at + 1 + i]) & 255 : 0);
            return out;
          });
        };
        const mk = [], rnd = [];
        for (const d of ob.draws) {
          if (d.kind === "choice") mk.push([d.kind, () => d.t.c.toString()]);
          else if (d.kind === "bytes") bytesDraw(d.v.o.sel0, d.t, (f) => mk.push([d.kind, f]));
          else {
            const at = want.length;
            want.push(d.t);
            mk.push([d.kind, (vals) => d.kind === "bool" ? vals[at] === "true" : d.kind === "str" ? strOfCode(BigInt(vals[at])) ?? String(vals[at]).replace("-", "m") : vals[at]]);
          }
        }
        for (const r of ob.rnd ?? []) bytesDraw(r.sel, r.len, (f) => rnd.push(f));
        void ints;
        const goals = clauses(T.not(ob.goal));
        const all = [];
        for (const f of [...this.facts, ...caps]) all.push(...clauses(f));
        const copies = [...all, ...goals].map((c) => c.vs.length ? { ...c } : c);
        const { ground } = SOL.instantiate(copies, { rounds: 3, cap: 3000 });
        const { text, terms } = SOL.script(ground, [], want);
        const m = SOL.quickModel(text, terms, ms);
        if (!m) continue;
        const vals = m.values.map(parseVal);
        if (vals.length < want.length) continue;
        const draws = [], now = [];
        for (const [kind, f] of mk) {
          if (kind === "now") now.push(f(vals));
          else draws.push({ kind, value: f(vals) });
        }
        return { draws, random: rnd.map((f) => f(vals)), now };
      }
    } catch (e) {
      this.log("counterexample: " + e.message);
    } finally {
      this.facts = saveF;
      this.factSet = saveS;
    }
    return null;
  }
  // -------- hooks used by the interpreter --------
  assume(t) {
    if (t === T.TRUE) return;
    if (t === T.FALSE) throw new PathEnd("infeasible");
    if (this.factSet.has(t)) return;
    const t0 = t;
    t = this.ctx.simplify(t);
    if (t !== t0) {
      this.factSet.add(t0);
      if (t === T.TRUE || this.factSet.has(t)) return;
      if (t === T.FALSE) throw new PathEnd("infeasible");
    }
    if (t.op === "and") {
      t.args.forEach((a) => this.assume(a));
      return;
    }
    this.factSet.add(t);
    this.facts.push(t);
    this.ctx.add(t);
  }
  decisions() {
    return this.pos;
  }
  decide(t, node) {
    if (this.factSet.has(t)) return true;
    if (this.factSet.has(T.not(t))) return false;
    t = this.ctx.simplify(t);
    if (t === T.TRUE || this.factSet.has(t)) return true;
    if (t === T.FALSE || this.factSet.has(T.not(t))) return false;
    if (Date.now() > this.deadline) throw new Budget("time budget");
    let c;
    if (this.pos < this.trace.length) c = this.trace[this.pos].c;
    else {
      const fOpt = { rounds: 2, cap: 400, nlMs: 40 };
      const canT = !this.unsatWith(t, 400, fOpt);
      const t1 = Date.now();
      const canF = canT ? !this.unsatWith(T.not(t), 400, fOpt) : true;
      if (process.env.VSLOW) console.error("decide", where(node), Date.now() - t1, canT, canF, T.print(t).slice(0, +process.env.VSLOW));
      if (canT && canF) {
        this.trace.push({ c: true, open: true });
        c = true;
      } else {
        c = canT;
        this.trace.push({ c, open: false });
      }
      if (this.trace.length > 400) throw new Budget("decision depth");
    }
    this.pos++;
    this.assume(c ? t : T.not(t));
    return c;
  }
  entailed(t) {
    if (this.factSet.has(t)) return true;
    t = this.ctx.simplify(t);
    if (t === T.TRUE || this.factSet.has(t)) return true;
    if (t === T.FALSE || this.factSet.has(T.not(t))) return false;
    if (Date.now() > this.deadline) throw new Budget("time budget");
    let c;
    if (this.pos < this.trace.length) c = this.trace[this.pos].c;
    else {
      c = this.unsatWith(T.not(t), 400, { rounds: 2, cap: 400, nlMs: 40 });
      this.trace.push({ c, open: false });
    }
    this.pos++;
    if (c) this.assume(t);
    return c;
  }
  // n-way demonic choice
  choice(n) {
    for (let i = 0; i < n - 1; i++) {
      let c;
      if (this.pos < this.trace.length) c = this.trace[this.pos].c;
      else {
        c = true;
        this.trace.push({ c: true, open: true });
      }
      this.pos++;
      if (c) return i;
    }
    return n - 1;
  }
  now() {
    if (this.fixedNow) return this.fixedNow;
    const v = T.freshVar("now", "Int", 0n, 1n << 52n);
    this.draws.push({ kind: "now", t: v });
    return v;
  }
  noteUnsafe(t, node) {
    if (!node) return;
    const w = where(node);
    if (!this.unsafe.has(w)) this.unsafe.set(w, 0);
    this.unsafe.set(w, this.unsafe.get(w) + 1);
  }
  oblige(goal, name, node) {
    this.asserts.set(name, (this.asserts.get(name) ?? 0) + 1);
    if (!this.final) {
      this.assume(goal);
      return;
    }
    const parts = goal.op === "and" ? goal.args.slice() : [goal];
    for (let i = 0; i < parts.length; i++) {
      const s = this.ctx.simplify(parts[i]);
      if (s.op === "and") {
        parts.splice(i, 1, ...s.args);
        i--;
        continue;
      }
      const g = s;
      const key = name + "|" + g.id + "|" + this.facts.map((f) => f.id).join(",");
      let ob = this.obligations.get(key);
      if (!ob) {
        const t0 = Date.now();
        ob = { name, node: node ? where(node) : "", trace: this.trace.slice(0, this.pos).map((d) => d.c ? 1 : 0).join(""), status: "open", backend: "", ms: 0 };
        if (g === T.TRUE) {
          ob.status = "proved";
          ob.backend = "simplifier";
        } else if (this.factSet.has(g)) {
          ob.status = "proved";
          ob.backend = "path-fact";
        } else {
          const q = this.query(T.not(g), { rounds: 4, cap: 4000 });
          const a = SOL.quickCheck(q.text, this.opts.obligationMs ?? 4000);
          ob.ms = Date.now() - t0;
          if (a === "unsat") {
            ob.status = "proved";
            ob.backend = "z3-new";
          } else {
            const q2 = this.query(T.not(g), { rounds: 5, cap: 8000, noSlice: true });
            ob.status = "unproved";
            ob.answer = a;
            ob.texts = [q2.text];
            if (q2.quants.length) ob.texts.push(this.rawQuantText(q2));
            ob.draws = this.draws.slice();
            ob.rnd = this.rndDraws.slice();
            ob.facts = this.facts.slice();
            ob.goal = g;
          }
        }
        this.obligations.set(key, ob);
      }
      this.assume(g);
    }
  }
  // -------- loops --------
  loopMode(key) {
    this.loopsSeen.add(key);
    return this.cuts.has(key) ? "cut" : "unroll";
  }
  setCut(key, node) {
    this.cuts.add(key);
    throw new Restart("cut " + key);
  }
  snapshot(I) {
    return { n: I.cells.length, vals: I.cells.map((c) => c.v) };
  }
  shapeOf(I, v, depth = 0) {
    if (v.k === "num") return v.d ? { k: "rat", d: v.d } : { k: "num" };
    if (["big", "bool", "undef", "null", "dbl", "nan"].includes(v.k)) return { k: v.k };
    if (v.k === "str") return { k: "str" };
    if (v.k === "opaque") return { k: "opaque", type: v.type, props: v.props };
    if (v.k === "fn" || v.k === "native" || v.k === "class" || v.k === "bound") return { k: "fn", v };
    if (v.k === "obj") {
      const o = v.o;
      if (o.tag === "bytes") return { k: "bytes" };
      if (o.tag === "arr") return { k: "arr", elem: this.elemShape(I, o.data.v, depth) };
      if (o.tag === "obj" && depth < 4) {
        const fields = {};
        for (const [k, c] of o.fields) fields[k] = this.shapeOf(I, c.v, depth + 1);
        return { k: "rec", cls: o.cls, fields };
      }
      return { k: "ref", v };
    }
    return { k: "ref", v };
  }
  elemShape(I, d, depth) {
    if (d.list) {
      let s = null;
      for (const x of d.list) s = joinShape(s, this.shapeOf(I, x, depth + 1));
      return s;
    }
    return d.elem ?? this.shapeOf(I, d.at(T.freshVar("probe")), depth + 1);
  }
  // a value of the given shape whose parts are functions of `args`
  mk(I, s, name, args = []) {
    const f = (sfx, sort, lo, hi) => T.app(T.freshFn(name + sfx, args.length, sort, lo, hi), args);
    switch (s.k) {
      case "num":
        return N(f(""));
      case "rat":
        if (s.d.op !== "num") throw new OutOfFragment("havoc of a fraction");
        return { k: "num", t: f(""), d: s.d };
      case "big":
        return BIG(f(""));
      case "bool":
        return B(f("", "Bool"));
      case "str":
        return SYM(f(""));
      case "dbl":
        return { k: "dbl", t: f("", "Int", 0n, (1n << 64n) - 1n) };
      case "undef":
        return UNDEF;
      case "null":
        return NULL;
      case "nan":
        return { k: "nan" };
      case "opaque":
        return { k: "opaque", type: s.type, t: f(""), props: s.props };
      case "fn":
      case "ref":
        return s.v;
      case "bytes": {
        const len = f("_len", "Int", 0n, (1n << 40n) - 1n);
        const g = T.freshFn(name + "_b", args.length + 1, "Int", 0n, 255n);
        return I.newBytes(len, (i) => T.app(g, [...args, i]));
      }
      case "arr": {
        const len = f("_len", "Int", 0n, (1n << 40n) - 1n);
        return I.symArr(len, this.atOf(I, s.elem, name + "_e", args));
      }
      case "rec": {
        const o = I.newObj("obj", null, s.cls);
        for (const k of Object.keys(s.fields)) I.setField(o, k, this.mk(I, s.fields[k], name + "_" + k, args));
        return { k: "obj", o };
      }
      case "alt": {
        return this.mk(I, s.alts[this.choice(s.alts.length)], name, args);
      }
    }
    throw new OutOfFragment("shape " + s.k);
  }
  atOf(I, elem, name, args) {
    if (!elem) return () => UNDEF;
    // function symbols are created once, so that the array is a function of its index
    const cell = new Map();
    const proto = {};
    const build = (s, nm) => {
      const mkf = (sfx, sort, lo, hi, extra = 0) => T.freshFn(nm + sfx, args.length + 1 + extra, sort, lo, hi);
      switch (s.k) {
        case "num":
        case "big":
        case "str":
        case "dbl":
        case "opaque": {
          const g = mkf("");
          return (i) => s.k === "str" ? SYM(T.app(g, [...args, i])) : s.k === "opaque" ? { k: "opaque", type: s.type, props: s.props, t: T.app(g, [...args, i]) } : { k: s.k, t: T.app(g, [...args, i]) };
        }
        case "bool": {
          const g = mkf("", "Bool");
          return (i) => B(T.app(g, [...args, i]));
        }
        case "bytes": {
          const l = mkf("_len", "Int", 0n, (1n << 40n) - 1n), g = mkf("_b", "Int", 0n, 255n, 1);
          return (i) => I.newBytes(T.app(l, [...args, i]), (j) => T.app(g, [...args, i, j]));
        }
        case "rec": {
          const fs = Object.entries(s.fields).map(([k, x]) => [k, build(x, nm + "_" + k)]);
          return (i) => {
            const o = I.newObj("obj", null, s.cls);
            for (const [k, b] of fs) I.setField(o, k, b(i));
            return { k: "obj", o };
          };
        }
        case "undef":
          return () => UNDEF;
        case "null":
          return () => NULL;
        case "fn":
        case "ref":
          return () => s.v;
        case "alt": {
          const g = mkf("_alt");
          const bs = s.alts.map((a, n) => build(a, nm + "_a" + n));
          return (i) => {
            const tag = T.app(g, [...args, i]);
            for (let n = 0; n < bs.length - 1; n++) {
              if (I.pure) {
                // in specifications the defined alternative is meant
                const pick = s.alts.findIndex((a) => a.k !== "undef" && a.k !== "null");
                return bs[pick < 0 ? 0 : pick](i);
              }
              if (I.decide(T.eq(tag, T.num(n)))) return bs[n](i);
            }
            return bs[bs.length - 1](i);
          };
        }
      }
      throw new OutOfFragment("array element shape " + s.k);
    };
    return build(elem, name);
  }
  cellShape(I, v) {
    if (v.sel) return { k: "$sel" };
    if (v.list || v.at) return { k: "$arr", elem: this.elemShape(I, v, 0) };
    if (Array.isArray(v)) return { k: "$entries" };
    return this.shapeOf(I, v);
  }
  havocCell(I, c, shapes) {
    let s = shapes;
    const nm = c.local ?? c.name.split(".").pop();
    if (s.k === "alt") {
      s = s.alts[this.choice(s.alts.length)];
    }
    if (s.k === "$sel") {
      const f = T.freshFn(nm + "_data", 1, "Int", 0n, 255n);
      c.v = { sel: (i) => T.app(f, [i]) };
    } else if (s.k === "$arr") {
      const len = T.freshVar(nm + "_len", "Int", 0n, (1n << 40n) - 1n);
      c.v = { len, at: this.atOf(I, s.elem, nm + "_e", []), elem: s.elem };
    } else if (s.k === "$entries") throw new OutOfFragment("havoc of a map or set");
    else c.v = this.mk(I, s, nm);
  }
  visible(I, scope, thisV, mods) {
    const out = [];
    const seen = new Set();
    for (let s = scope; s && s.parent; s = s.parent) {
      for (const [name, c] of s.vars) {
        if (seen.has(name)) continue;
        seen.add(name);
        out.push({ name, cell: c, mod: mods.has(c.name) });
      }
    }
    if (thisV && thisV.k === "obj" && thisV.o.tag === "obj") {
      for (const [k, c] of thisV.o.fields) out.push({ name: "this." + k, cell: c, mod: mods.has(c.name) });
    }
    return out;
  }
  candidates(I, key, node, scope, thisV) {
    const mods = this.mods.get(key) ?? new Map();
    const vis = this.visible(I, scope, thisV, mods);
    const cands = [];
    const intOf = (v) => v.k === "num" && !v.d || v.k === "big" ? v.t : null;
    const ints = [];
    for (const x of vis) {
      const v = x.cell.v;
      if (intOf(v)) ints.push({ ...x, k: v.k, get: () => intOf(x.cell.v) ?? T.ZERO, ok: () => intOf(x.cell.v) !== null, entry: intOf(v) });
      else if (v.k === "obj" && v.o.tag === "bytes") ints.push({ ...x, name: x.name + ".length", k: "num", get: () => x.cell.v.k === "obj" && x.cell.v.o.tag === "bytes" ? x.cell.v.o.len : T.ZERO, ok: () => x.cell.v.k === "obj" && x.cell.v.o.tag === "bytes", entry: v.o.len });
      else if (v.k === "obj" && v.o.tag === "arr") {
        const ln = () => x.cell.v.o.data.v.list ? T.num(x.cell.v.o.data.v.list.length) : x.cell.v.o.data.v.len;
        ints.push({ ...x, name: x.name + ".length", k: "num", mod: x.mod || mods.has(v.o.data.name), get: ln, ok: () => true, entry: ln() });
      }
    }
    // modified heap cells that are not directly visible
    for (const c of I.cells) {
      if (mods.has(c.name) && !vis.some((x) => x.cell === c) && c.v && intOf(c.v)) ints.push({ name: c.name, cell: c, mod: true, k: c.v.k, get: () => intOf(c.v) ?? T.ZERO, ok: () => intOf(c.v) !== null, entry: intOf(c.v) });
    }
    const add = (id, f) => cands.push({ id: key + "|" + id, f });
    const modInts = this.opts.templates === false ? [] : ints.filter((x) => x.mod);
    const consts = ints.filter((x) => !x.mod && x.entry.op !== "num").slice(0, 14);
    for (const x of modInts) {
      add(`${x.name}>=0`, () => T.ge(x.get(), T.ZERO));
      if (x.entry !== T.ZERO) add(`${x.name}>=entry`, () => T.ge(x.get(), x.entry));
      add(`${x.name}<=entry`, () => T.le(x.get(), x.entry));
      for (const c of [4, 8, 16]) add(`${x.name}=entry mod ${c}`, () => T.eq(T.mod(T.sub(x.get(), x.entry), T.num(c)), T.ZERO));
      for (const y of consts) {
        if (y.k !== x.k) continue;
        add(`${x.name}<=${y.name}`, () => T.le(x.get(), y.get()));
      }
    }
    for (let a = 0; a < modInts.length; a++) {
      for (let b = 0; b < modInts.length; b++) {
        if (a === b) continue;
        const x = modInts[a], y = modInts[b];
        if (x.k !== y.k) continue;
        add(`${x.name}<=${y.name}`, () => T.le(x.get(), y.get()));
        if (a < b) {
          add(`${x.name}-${y.name}=entry`, () => T.eq(T.sub(x.get(), y.get()), T.sub(x.entry, y.entry)));
          add(`${x.name}+${y.name}=entry`, () => T.eq(T.add(x.get(), y.get()), T.add(x.entry, y.entry)));
        }
      }
    }
    const KIND = { number: (v) => v.k === "num", bigint: (v) => v.k === "big", boolean: (v) => v.k === "bool", Uint8Array: (v) => v.k === "obj" && v.o.tag === "bytes", string: (v) => v.k === "str" };
    this.hints.forEach((h, hi) => {
      if (h.target && !I.callStack.some((f) => f.fn && (f.fn === h.target || f.fn.endsWith("." + h.target)))) return;
      const params = h.fn.node.parameters.map((p) => ({ name: p.name.text, type: p.type?.getText() ?? "" }));
      const options = params.map((p) => {
        if (p.name === "self") return thisV ? [{ name: "this", cell: { v: thisV } }] : [];
        const exact = vis.filter((x) => x.name === p.name || x.name === "this." + p.name);
        const kindOk = KIND[p.type] ?? (() => true);
        if (exact.length && kindOk(exact[0].cell.v)) return exact.slice(0, 1);
        if (!KIND[p.type] || h.exact) return [];
        return vis.filter((x) => kindOk(x.cell.v));
      });
      let combos = [[]];
      for (const o of options) {
        const nx = [];
        for (const c of combos) for (const x of o) nx.push([...c, x]);
        combos = nx;
        if (combos.length > 150) {
          combos = [];
          break;
        }
      }
      for (const c of combos) {
        add(`hint${hi}(${c.map((x) => x.name).join(",")})`, () => {
          I.pure++;
          const st = I.callStack;
          try {
            const g = I.callBody(h.fn, UNDEF, c.map((x) => x.cell.v), h.fn.node);
            const r = g.next();
            if (!r.done) throw new OutOfFragment("await in hint");
            return I.truthy(r.value);
          } finally {
            I.pure--;
            I.callStack = st;
          }
        });
      }
    });
    return cands;
  }
  evalCand(c) {
    try {
      return c.f();
    } catch (e) {
      if (e instanceof OutOfFragment || e instanceof JSThrow || e instanceof TypeError) return null;
      throw e;
    }
  }
  *loopHead(I, key, node, scope, thisV) {
    const mods = this.mods.get(key) ?? new Map();
    this.mods.set(key, mods);
    const cands = mods.size ? this.candidates(I, key, node, scope, thisV) : [];
    const live = [];
    for (const c of cands) {
      if (this.dropped.has(c.id)) continue;
      const t = this.evalCand(c);
      if (t === null || !this.provesInv(t, c.id)) {
        this.dropped.add(c.id);
        this.changed = true;
        continue;
      }
      live.push(c);
    }
    for (const c of I.cells) if (mods.has(c.name)) this.havocCell(I, c, mods.get(c.name));
    for (const c of live) {
      const t = this.evalCand(c);
      if (t === null) {
        this.dropped.add(c.id);
        this.changed = true;
        continue;
      }
      this.assume(t);
    }
    this.kept.set(key, { where: where(node), inv: live.map((c) => c.id.slice(key.length + 1)) });
    this.loopLive.set(key, live);
  }
  provesInv(t, id) {
    const key = t.id + "|" + this.facts.map((f) => f.id).join(",");
    if (this.proved.has(key)) return this.proved.get(key);
    const r = this.proves(t, 1200);
    this.proved.set(key, r);
    return r;
  }
  *loopTail(I, key, node, scope, thisV, snap) {
    const mods = this.mods.get(key);
    let grew = false;
    for (let i = 0; i < snap.n; i++) {
      const c = I.cells[i];
      if (c.v === snap.vals[i] || c.v?.deleted) continue;
      if (sameVal(c.v, snap.vals[i])) continue;
      const sh = joinShape(this.cellShape(I, snap.vals[i]), this.cellShape(I, c.v));
      const old = mods.get(c.name);
      const nw = old ? joinShape(old, sh) : sh;
      if (!old || shapeKey(old) !== shapeKey(nw)) {
        mods.set(c.name, nw);
        grew = true;
      }
    }
    if (grew) throw new Restart("modified set of " + key);
    for (const c of this.loopLive.get(key) ?? []) {
      if (this.dropped.has(c.id)) continue;
      const t = this.evalCand(c);
      if (t === null || !this.provesInv(t, c.id)) {
        this.dropped.add(c.id);
        this.changed = true;
      }
    }
    if (this.final && !this.changed) {
      for (const c of this.loopLive.get(key) ?? []) this.invChecked++;
    }
  }

  // -------- ghost API --------
  ghost(I) {
    const X = this;
    const { fn, gfn, nat } = I.builtins;
    const conc = (v) => v && (v.k === "num" || v.k === "big") ? v.t : null;
    const opt = (v) => v && v.k !== "undef" ? conc(v) : null;
    const cst = (t) => t && t.op === "num" ? t.c : null;
    const draw = (kind, v, t) => {
      X.draws.push({ kind, v, t });
      return v;
    };
    const ranged = (mk) => (s, [lo, hi]) => {
      const l = opt(lo), h = opt(hi);
      const t = T.freshVar("in", "Int", cst(l), cst(h));
      if (l && l.op !== "num") X.assume(T.ge(t, l));
      if (h && h.op !== "num") X.assume(T.le(t, h));
      return draw("int", mk(t), t);
    };
    const pureCall = function* (f, args, node) {
      I.pure++;
      try {
        return yield* I.call(f, UNDEF, args, node);
      } finally {
        I.pure--;
      }
    };
    const forall = gfn("forall", function* (s, [lo, hi, f], node) {
      const q = T.freshBound();
      if (lo.k === "undef") return B(T.forall([q], I.truthy(yield* pureCall(f, [BIG(q)], node))));
      const r = yield* pureCall(f, [lo.k === "big" ? BIG(q) : N(q)], node);
      return B(T.forall([q], T.implies(T.and(T.le(lo.t, q), T.lt(q, hi.t)), I.truthy(r))));
    });
    const eqBytes = (a, b) => {
      const q = T.freshBound();
      const la = a.o.len, lb = b.o.len;
      const body = T.eq(I.bytesSel(a.o)(q), I.bytesSel(b.o)(q));
      return T.and(T.eq(la, lb), T.forall([q], T.implies(T.and(T.le(T.ZERO, q), T.lt(q, la)), body)));
    };
    return {
      int: fn("int", ranged(N)),
      big: fn("big", ranged(BIG)),
      bool: fn("bool", () => {
        const c = X.choice(2);
        draw("choice", B(T.bool(c === 0)), T.num(c));
        return B(T.bool(c === 0));
      }),
      symBool: fn("symBool", () => {
        const t = T.freshVar("b", "Bool");
        draw("bool", B(t), t);
        return B(t);
      }),
      choose: fn("choose", (s, [n]) => {
        const c = X.choice(Number(n.t.c));
        draw("choice", N(c), T.num(c));
        return N(c);
      }),
      bytes: fn("bytes", (s, [lo, hi], node) => {
        const l = opt(lo) ?? T.ZERO, h = opt(hi) ?? T.num((1n << 31n) - 1n);
        let len;
        if (l === h) len = l;
        else {
          len = T.freshVar("len", "Int", cst(l) ?? 0n, cst(h) ?? (1n << 31n) - 1n);
          if (l.op !== "num") X.assume(T.ge(len, l));
          if (h.op !== "num") X.assume(T.le(len, h));
        }
        const v = I.freshBytes("bytes", len, node);
        draw("bytes", v, len);
        v.o.sel0 = I.bytesSel(v.o);
        return v;
      }),
      str: fn("str", (s, [max]) => {
        const t = T.freshVar("s");
        X.texts.push(t);
        if (max) X.assume(T.le(T.app(T.declFn("utf8len", 1, "Int", 0n, (1n << 31n) - 1n), [t]), max.t));
        return draw("str", SYM(t), t);
      }),
      double: fn("double", () => {
        const t = T.freshVar("d", "Int", 0n, (1n << 64n) - 1n);
        return draw("dbl", { k: "dbl", t }, t);
      }),
      same: fn("same", (s, [a, b], node) => {
        if (a.k === "dbl" && b.k === "dbl") return B(T.or(T.eq(a.t, b.t), T.and(I.dblNaN(a), I.dblNaN(b))));
        return B(I.strictEq(a, b, node));
      }),
      opaque: fn("opaque", (s, [name]) => {
        const t = T.freshVar("o");
        return draw("opaque", { k: "opaque", type: name?.lit ?? "opaque", t }, t);
      }),
      assume: fn("assume", (s, [c]) => {
        const t = I.truthy(c);
        X.assume(t);
        if (t !== T.TRUE && X.unsatWith(T.TRUE, 300, { rounds: 1, cap: 200, noSlice: true })) throw new PathEnd("infeasible");
        return UNDEF;
      }),
      assert: fn("assert", (s, [c, name], node) => {
        X.oblige(I.truthy(c), name?.lit ?? "assert", node);
        return UNDEF;
      }),
      fail: fn("fail", (s, [name], node) => {
        X.oblige(T.FALSE, name?.lit ?? "fail", node);
        throw new PathEnd("fail");
      }),
      forall,
      eqBytes: fn("eqBytes", (s, [a, b]) => B(eqBytes(a, b))),
      // a[ao..ao+n) equals b[bo..bo+n)
      eqRange: fn("eqRange", (s, [a, ao, b, bo, n]) => {
        const q = T.freshBound();
        return B(T.forall([q], T.implies(T.and(T.le(ao.t, q), T.lt(q, T.add(ao.t, n.t))), T.eq(I.bytesSel(a.o)(q), I.bytesSel(b.o)(T.add(T.sub(q, ao.t), bo.t))))));
      }),
      implies: nat("implies", null, {
        special: function* (I, node, scope, thisV) {
          const a = I.truthy(yield* I.ev(node.arguments[0], scope, thisV));
          if (a === T.FALSE) return TRUE;
          I.pure++;
          let b;
          try {
            b = I.truthy(yield* I.ev(node.arguments[1], scope, thisV));
          } finally {
            I.pure--;
          }
          return B(T.implies(a, b));
        },
      }),
      and: fn("and", (s, as) => B(T.and(...as.map((a) => I.truthy(a))))),
      pure: gfn("pure", function* (s, [f], node) {
        return yield* pureCall(f, [], node);
      }),
      snap: fn("snap", (s, [b], node) => I.bytesSnapshot(b.o, node)),
      inv: fn("inv", (s, args) => {
        const f = args.find((a) => a.k === "fn"), t = args.find((a) => a.k === "str");
        X.hints.push({ fn: f, target: t?.lit });
        return UNDEF;
      }),
      // uninterpreted pure specification function of integers
      fn: fn("fn", (s, [name], node) => {
        const nm = name.lit;
        return fn(nm, (s2, as) => {
          const d = T.declFn("spec_" + nm + as.length, as.length);
          const big = as.some((a) => a.k === "big");
          const t = T.app(d, as.map((a) => a.t ?? I.toInt(a)));
          return big ? BIG(t) : N(t);
        });
      }),
      axiom: fn("axiom", (s, [c, name]) => {
        X.trusted.add("axiom: " + (name?.lit ?? "?"));
        X.assume(I.truthy(c));
        return UNDEF;
      }),
      lemma: fn("lemma", (s, [c, name], node) => {
        X.oblige(I.truthy(c), "lemma " + (name?.lit ?? ""), node);
        return UNDEF;
      }),
      symbolic: B(T.TRUE),
      // run pending timers / settle everything
      settle: fn("settle", (s, a, node) => {
        const p = I.newPromise(node);
        (I.idle ??= []).push(p);
        return p;
      }),
      sort: fn("sort", (s, [v]) => S(kindName(v))),
      get: gfn("get", function* (s, [o, key], node) {
        return yield* I.getProp(o, key.lit, node);
      }),
      put: gfn("put", function* (s, [o, key, v], node) {
        if (!o.o.fields.has(key.lit)) throw new OutOfFragment("contract names a missing field " + key.lit);
        I.setField(o.o, key.lit, v);
        return UNDEF;
      }),
      has: fn("has", (s, [o, key]) => B(T.bool(o.o.fields.has(key.lit)))),
      callPrivate: gfn("callPrivate", function* (s, [o, key, ...args], node) {
        const f = yield* I.getProp(o, key.lit, node);
        return yield* I.call(f, o, args, node);
      }),
      stub: fn("stub", (s, [name, f]) => {
        I.globalOverrides.set(name.lit, f);
        return UNDEF;
      }),
      method: fn("method", (s, [cls, key, f]) => {
        cls.methods.delete(key.lit);
        cls.getters.delete(key.lit);
        cls.methods.set(key.lit, f);
        return UNDEF;
      }),
      getter: fn("getter", (s, [cls, key, f]) => {
        cls.methods.delete(key.lit);
        cls.getters.set(key.lit, f);
        return UNDEF;
      }),
      override: fn("override", (s, [key, f]) => {
        // replaces a repository function by its contract for this lemma
        X.trusted.add("contract used for " + key.lit);
        if (f.k === "class" || f.k === "obj" || (f.k === "native" && f.statics)) {
          I.overrides.set(key.lit, { value: f });
          return UNDEF;
        }
        I.overrides.set(key.lit, function* (I, self, args, node) {
          return yield* I.call(f, self, args, node);
        });
        return UNDEF;
      }),
      setNow: fn("setNow", (s, [t]) => {
        X.fixedNow = t && t.k === "num" ? t.t : null;
        return UNDEF;
      }),
      note: fn("note", (s, [t]) => {
        X.trusted.add(t.lit);
        return UNDEF;
      }),
      log: fn("log", (s, as) => {
        if (process.env.VDEBUG) console.error("LOG", ...as.map((a) => a.t ? T.print(a.t) : a.lit ?? kindName(a)));
        return UNDEF;
      }),
      timers: gfn("fireTimers", function* (s, a, node) {
        const max = a[0] ? Number(a[0].t.c) : Infinity;
        const l = I.timers.filter((t) => !(t.ms > max));
        I.timers = I.timers.filter((t) => t.ms > max);
        for (const t of l) yield* I.call(t.f, UNDEF, [], node);
        return N(l.length);
      }),
    };
  }

  // -------- main loop --------
  onePath() {
    T.resetFresh();
    SOL.resetSkolem?.();
    this.facts = [];
    this.factSet = new Set();
    this.ctx = new T.Context();
    this.pos = 0;
    this.draws = [];
    this.fixedNow = null;
    this.rndDraws = [];
    this.hints = [];
    this.texts = [];
    this.loopLive = new Map();
    const I = new Interp(this, { builtins: (i) => makeBuiltins(i), coverage: this.coverage, importMap: this.opts.importMap, maxUnroll: this.opts.maxUnroll, unroll: this.opts.unroll, cutForever: this.opts.cutForever, plainCrypto: this.opts.plainCrypto, looseCrypto: this.opts.looseCrypto, overrides: new Map(this.opts.overrides ?? []) });
    this.I = I;
    const g = this.ghost(I);
    I.builtins.modules = (file, name) => {
      if (/\/ghost\.ts$/.test(file)) {
        if (name === "*") return { k: "native", name: "G", statics: g };
        return g[name] ?? null;
      }
      if (/\/tgcrypto\/mod\.ts$/.test(file)) return I.builtins.tgcrypto[name] ?? null;
      if (/\/std\/cache\/lru_cache\.ts$/.test(file) && name === "LruCache") return drainGen(I.exportOf(PRELUDE, name));
      return this.opts.modules?.(I, file, name) ?? null;
    };
    const mod = I.module(this.specFile);
    let outcome = "done";
    try {
      const f = drainGen(I.moduleVar(mod, this.lemma));
      const p = I.newPromise(null);
      I.callStack = [{ site: this.lemma }];
      I.drive((function* () {
        const r = yield* I.call(f, UNDEF, [], null);
        if (r.k === "obj" && r.o.tag === "promise") return yield { await: r };
        return r;
      })(), p);
      I.drain();
      if (p.o.state === "rejected") {
        const e = p.o.value;
        const msg = e.k === "obj" ? (e.o.fields.get("name")?.v.lit ?? "?") + ": " + (e.o.fields.get("message")?.v.lit ?? "?") : kindName(e);
        this.oblige(T.FALSE, "no uncaught exception (" + msg + ")", null);
        outcome = "throw " + msg;
      } else if (p.o.state === "pending") {
        this.oblige(T.FALSE, "lemma completes (a promise is never settled)", null);
        outcome = "pending";
      }
    } catch (e) {
      if (!(e instanceof PathEnd)) throw e;
      outcome = e.why;
    }
    return outcome;
  }
  run() {
    // with no loop abstracted by an invariant, the first exploration already decides the obligations
    this.final = true;
    for (;;) {
      this.rounds++;
      if (this.rounds > 120) throw new Budget("invariant inference rounds");
      this.changed = false;
      this.trace = [];
      this.paths = 0;
      this.asserts = new Map();
      this.invChecked = 0;
      this.outcomes = {};
      try {
        for (;;) {
          const o = this.onePath();
          this.paths++;
          this.outcomes[o] = (this.outcomes[o] ?? 0) + 1;
          if (process.env.VDEBUG > 1) console.error("path", this.paths, o, this.trace.map((d) => d.c ? "T" : "F").join(""));
          if (this.paths > (this.opts.maxPaths ?? 4000)) throw new Budget("paths");
          while (this.trace.length && !this.trace[this.trace.length - 1].open) this.trace.pop();
          if (!this.trace.length) break;
          this.trace[this.trace.length - 1] = { c: false, open: false };
          if (this.changed && this.cuts.size && !this.final) {
            // keep exploring: other paths may drop more candidates in the same round
          }
        }
      } catch (e) {
        if (e instanceof Restart) {
          this.log("restart: " + e.message);
          this.final = false;
          this.obligations.clear();
          continue;
        }
        throw e;
      }
      if (this.changed) {
        this.final = false;
        this.obligations.clear();
        continue;
      }
      if (this.final) break;
      this.final = true;
    }
    return this;
  }
}
function parseVal(l) {
  const m = l.match(/^\(- (\d+)\)$/);
  return m ? "-" + m[1] : l;
}
function drainGen(g) {
  const r = g.next();
  if (!r.done) throw new OutOfFragment("await at module level");
  return r.value;
}
function sameVal(a, b) {
  if (!a || !b) return false;
  if (a.k !== b.k) return false;
  if (a.k === "undef" || a.k === "null" || a.k === "nan") return true;
  if (a.t && b.t) return a.t === b.t && (a.d ?? null) === (b.d ?? null);
  if (a.k === "obj") return a.o === b.o;
  return false;
}
function shapeKey(s) {
  if (!s) return "none";
  if (s.k === "alt") return "alt(" + s.alts.map(shapeKey).sort().join("|") + ")";
  if (s.k === "arr" || s.k === "$arr") return s.k + "[" + shapeKey(s.elem) + "]";
  if (s.k === "rec") return "rec{" + Object.keys(s.fields).sort().map((k) => k + ":" + shapeKey(s.fields[k])).join(",") + "}";
  if (s.k === "rat") return "rat" + s.d.id;
  if (s.k === "opaque") return "opaque:" + s.type;
  return s.k;
}
function joinShape(a, b) {
  if (!a) return b;
  if (!b) return a;
  if (shapeKey(a) === shapeKey(b)) return a;
  if (a.k === "$arr" && b.k === "$arr") return { k: "$arr", elem: joinShape(a.elem, b.elem) };
  if (a.k === "arr" && b.k === "arr") return { k: "arr", elem: joinShape(a.elem, b.elem) };
  if (a.k === "rec" && b.k === "rec") {
    const fields = {};
    for (const k of new Set([...Object.keys(a.fields), ...Object.keys(b.fields)])) fields[k] = joinShape(a.fields[k] ?? { k: "undef" }, b.fields[k] ?? { k: "undef" });
    return { k: "rec", cls: a.cls, fields };
  }
  const alts = [];
  for (const s of [...(a.k === "alt" ? a.alts : [a]), ...(b.k === "alt" ? b.alts : [b])]) {
    const i = alts.findIndex((x) => shapeKey(x) === shapeKey(s) || (x.k === s.k && ["arr", "$arr", "rec"].includes(x.k)));
    if (i < 0) alts.push(s);
    else alts[i] = joinShape(alts[i], s);
  }
  return alts.length === 1 ? alts[0] : { k: "alt", alts };
}
