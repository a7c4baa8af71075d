// SMT back ends: one persistent z3 for quick questions, a portfolio (z3 4.8.12, newer z3, cvc5) for obligations.
import { spawn, execFileSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import * as T from "./term.mjs";

export const stats = { queries: 0, ms: 0, byBackend: {}, restarts: 0 };
const sleepBuf = new Int32Array(new SharedArrayBuffer(4));

class Pipe {
  constructor(cmd, args) {
    this.cmd = cmd;
    this.args = args;
    this.start();
  }
  start() {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "vsmt-"));
    execFileSync("mkfifo", [this.dir + "/i", this.dir + "/o"]);
    this.wi = fs.openSync(this.dir + "/i", fs.constants.O_RDWR);
    this.ro = fs.openSync(this.dir + "/o", fs.constants.O_RDWR | fs.constants.O_NONBLOCK);
    const ri = fs.openSync(this.dir + "/i", fs.constants.O_RDONLY);
    const wo = fs.openSync(this.dir + "/o", fs.constants.O_WRONLY);
    this.p = spawn(this.cmd, this.args, { stdio: [ri, wo, "ignore"] });
    this.p.unref();
    fs.closeSync(ri);
    fs.closeSync(wo);
    fs.rmSync(this.dir, { recursive: true });
    this.n = 0;
  }
  stop() {
    try {
      this.p.kill("SIGKILL");
    } catch { /* gone */ }
    fs.closeSync(this.wi);
    fs.closeSync(this.ro);
  }
  // returns output text, or null when the solver did not answer before the deadline
  ask(text, deadlineMs) {
    const mark = "#" + (++this.n) + "#";
    const data = Buffer.from(text + `\n(echo "${mark}")\n`);
    let out = "";
    const buf = Buffer.alloc(1 << 16);
    let off = 0;
    const t0 = Date.now();
    const pump = () => {
      try {
        const n = fs.readSync(this.ro, buf, 0, buf.length, null);
        out += buf.toString("utf8", 0, n);
        return n > 0;
      } catch (e) {
        if (e.code !== "EAGAIN") throw e;
        return false;
      }
    };
    // the fifo is opened read-write, so a blocking write of a large query could dead-lock only if z3 stops reading: write in pieces
    while (off < data.length) {
      off += fs.writeSync(this.wi, data, off, Math.min(32768, data.length - off));
      pump();
    }
    let spins = 0;
    while (!out.includes(mark)) {
      if (!pump()) {
        if (Date.now() - t0 > deadlineMs) {
          stats.restarts++;
          this.stop();
          this.start();
          return null;
        }
        if (++spins > 3) Atomics.wait(sleepBuf, 0, 0, spins < 50 ? 0.2 : 2);
      }
    }
    return out.slice(0, out.lastIndexOf(mark));
  }
}

let quick = null;
export function closeAll() {
  if (quick) quick.stop();
  quick = null;
}
process.on("exit", () => {
  if (quick) {
    try {
      quick.p.kill("SIGKILL");
    } catch { /* gone */ }
  }
});

const BITDEFS = ["and", "or", "xor"].map((k) => `(define-fun |${k}!64| ((a Int) (b Int)) Int (bv2nat (bv${k} ((_ int2bv 64) a) ((_ int2bv 64) b))))`).join("\n");

// ---------- facts: prenexing, skolemisation ----------
let skN = 0;
export function resetSkolem() {
  skN = 0;
}
function skolem() {
  return T.app(T.declFn("sk!" + (skN++), 0), []);
}
// returns list of {vs, body} clauses equivalent (equisatisfiable) to t
export function clausify(t, polarity = true, vs = []) {
  if (!polarity) {
    switch (t.op) {
      case "not":
        return clausify(t.args[0], true, vs);
      case "and":
        return disj(t.args.map((a) => clausify(a, false, vs)), vs);
      case "or":
        return t.args.flatMap((a) => clausify(a, false, vs));
      case "forall": {
        if (vs.length) return [{ vs, body: T.not(t), raw: true }];
        const m = new Map(t.vs.map((v) => [v, skolem()]));
        return clausify(T.subst(t.args[0], m), false, vs);
      }
      default:
        return [{ vs, body: T.not(t) }];
    }
  }
  switch (t.op) {
    case "not":
      return t.args[0].op === "le0" ? [{ vs, body: t }] : clausify(t.args[0], false, vs);
    case "and":
      return t.args.flatMap((a) => clausify(a, true, vs));
    case "or":
      return disj(t.args.map((a) => clausify(a, true, vs)), vs);
    case "forall": {
      const m = new Map(t.vs.map((v) => [v, T.freshBound()]));
      return clausify(T.subst(t.args[0], m), true, [...vs, ...m.values()]);
    }
    default:
      return [{ vs, body: t }];
  }
}
function disj(lists, vs) {
  // quantifier-free disjuncts are kept whole; quantified ones are pulled out
  if (lists.every((l) => l.every((c) => c.vs.length === vs.length && !c.raw))) {
    return [{ vs, body: T.or(...lists.map((l) => T.and(...l.map((c) => c.body)))) }];
  }
  let acc = [{ vs, body: T.FALSE }];
  for (const l of lists) {
    const nx = [];
    for (const a of acc) for (const c of l) nx.push({ vs: [...new Set([...a.vs, ...c.vs])], body: T.or(a.body, c.body), raw: a.raw || c.raw });
    acc = nx;
    if (acc.length > 64) break;
  }
  return acc;
}

function matchArg(arg, v) {
  // arg = k*v + rest with k = +-1, rest free of v ; returns {k, rest}
  if (arg === v) return { k: 1n, rest: T.ZERO };
  if (arg.op !== "lin") return null;
  const k = arg.m.get(v);
  if (k !== 1n && k !== -1n) return null;
  const m = new Map(arg.m);
  m.delete(v);
  const rest = T.fromLin(arg.c, m);
  return contains(rest, v) ? null : { k, rest };
}
function contains(t, v) {
  if (t === v) return true;
  return t.args.some((a) => a.op === "bv" || T.hasBv(a) ? contains(a, v) : false);
}

export function instantiate(clauses, opts = {}) {
  const rounds = opts.rounds ?? 3, cap = opts.cap ?? 3000;
  const ground = clauses.filter((c) => c.vs.length === 0 && !c.raw).map((c) => c.body);
  const quants = clauses.filter((c) => c.vs.length > 0 || c.raw);
  for (const q of quants) {
    if (q.raw) continue;
    // triggers: per variable the apps that determine it
    q.trig = [];
    const subs = T.subterms([q.body]);
    for (const t of subs) {
      if (t.op !== "app" || t.args.length === 0) continue;
      const det = [];
      t.args.forEach((a, p) => {
        for (const v of q.vs) {
          const mm = matchArg(a, v);
          if (mm && !q.vs.some((w) => w !== v && contains(mm.rest, w))) det.push({ p, v, ...mm });
        }
      });
      if (det.length) q.trig.push({ fn: t.fn.name, det, t });
    }
    q.done = new Set();
  }
  const apps = new Map(); // fn -> Set(term)
  const seen = new Set();
  const collect = (t) => {
    const st = [t];
    while (st.length) {
      const x = st.pop();
      if (seen.has(x)) continue;
      seen.add(x);
      if (x.op === "app" && x.args.length && !T.hasBv(x)) {
        let s = apps.get(x.fn.name);
        if (!s) apps.set(x.fn.name, s = new Set());
        s.add(x);
      }
      for (const a of x.args) st.push(a);
    }
  };
  ground.forEach(collect);
  let total = 0;
  const out = [...ground];
  for (let r = 0; r < rounds && total < cap; r++) {
    const fresh = [];
    for (const q of quants) {
      if (q.raw) continue;
      const subsList = [];
      const full = q.trig.filter((tr) => new Set(tr.det.map((d) => d.v)).size === q.vs.length);
      if (q.vs.length === 1 || full.length) {
        for (const tr of full) {
          for (const g of apps.get(tr.fn) ?? []) {
            const m = new Map();
            for (const d of tr.det) if (!m.has(d.v)) m.set(d.v, d.k === 1n ? T.sub(g.args[d.p], d.rest) : T.sub(d.rest, g.args[d.p]));
            // other arguments of the pattern that are ground must be able to match
            subsList.push(m);
          }
        }
      } else {
        // multi-trigger: product over the variables
        let acc = [new Map()];
        for (const v of q.vs) {
          const vals = new Set();
          for (const tr of q.trig) for (const d of tr.det) if (d.v === v) for (const g of apps.get(tr.fn) ?? []) vals.add(d.k === 1n ? T.sub(g.args[d.p], d.rest) : T.sub(d.rest, g.args[d.p]));
          const nx = [];
          for (const a of acc) for (const x of vals) nx.push(new Map([...a, [v, x]]));
          acc = nx;
          if (acc.length > 400) break;
        }
        subsList.push(...acc.filter((m) => m.size === q.vs.length));
      }
      for (const m of subsList) {
        const key = q.vs.map((v) => m.get(v).id).join(",");
        if (q.done.has(key)) continue;
        q.done.add(key);
        const b = T.subst(q.body, m);
        if (b === T.TRUE || T.hasBv(b) && b.op !== "forall") continue;
        fresh.push(b);
        if (++total >= cap) break;
      }
      if (total >= cap) break;
    }
    if (!fresh.length) break;
    for (const b of fresh) {
      out.push(b);
      collect(b);
    }
  }
  return { ground: out, quants, total };
}

function symbolsOf(t, memo) {
  let s = memo.get(t);
  if (s) return s;
  s = new Set();
  for (const x of T.subterms([t])) if (x.op === "app") s.add(x.fn.name);
  memo.set(t, s);
  return s;
}
const symMemo = new Map();
export function slice(clauses, goals) {
  const want = new Set();
  for (const g of goals) for (const s of symbolsOf(g.body, symMemo)) want.add(s);
  const left = new Set(clauses);
  let changed = true;
  while (changed) {
    changed = false;
    for (const c of left) {
      const ss = symbolsOf(c.body, symMemo);
      if (ss.size === 0 || [...ss].some((s) => want.has(s))) {
        left.delete(c);
        for (const s of ss) if (!want.has(s)) want.add(s);
        changed = true;
      }
    }
  }
  return clauses.filter((c) => !left.has(c));
}

// Prints assertions; ground subterms that are shared and large become named definitions, so the text stays linear in the term graph.
export function script(asserts, quantified = [], extra = []) {
  const roots = [...asserts, ...quantified, ...extra];
  const all = T.subterms(roots);
  const decl = new Map();
  let bits = false;
  const refs = new Map();
  for (const t of all) for (const a of t.args) refs.set(a, (refs.get(a) ?? 0) + 1);
  for (const t of all) {
    if (t.op === "bit2") bits = true;
    if (t.op === "app" && !decl.has(t.fn.name)) decl.set(t.fn.name, t.fn);
  }
  const size = new Map();
  const sizeOf = (t) => {
    let n = size.get(t);
    if (n === undefined) {
      n = 1;
      for (const a of t.args) n += sizeOf(a);
      if (n > 40 && !T.hasBv(t) && t.op !== "forall" && (refs.get(t) ?? 0) > 1) n = 41;
      size.set(t, n);
    }
    return n;
  };
  const names = new Map();
  const memo = new Map();
  const defs = [];
  const pr = (t) => {
    let s = memo.get(t);
    if (s !== undefined) return s;
    const big = sizeOf(t) > 40 && (refs.get(t) ?? 0) > 1 && t.args.length && t.op !== "forall" && !T.hasBv(t);
    s = T.printWith(t, pr);
    if (big) {
      const nm = `|t!${names.size}|`;
      names.set(t, nm);
      defs.push(`(define-fun ${nm} () ${T.sortOf(t)} ${s})`);
      s = nm;
    }
    memo.set(t, s);
    return s;
  };
  const ranges = [];
  for (const t of all) {
    if (T.hasBv(t)) continue;
    if (t.op === "app" && t.fn.sort === "Int") {
      if (t.fn.lo !== null) ranges.push(`(assert (<= ${T.print(T.num(t.fn.lo))} ${pr(t)}))`);
      if (t.fn.hi !== null) ranges.push(`(assert (<= ${pr(t)} ${T.print(T.num(t.fn.hi))}))`);
    }
    // definitional facts for symbolic division
    if ((t.op === "div" || t.op === "mod") && t.args[1].op !== "num") {
      const [a, b] = t.args;
      const q = T.div(a, b), r = T.mod(a, b);
      if (q.op === "div" && r.op === "mod") {
        ranges.push(`(assert (=> (> ${pr(b)} 0) (and (<= 0 ${pr(r)}) (< ${pr(r)} ${pr(b)}) (= ${pr(a)} (+ (* ${pr(b)} ${pr(q)}) ${pr(r)})))))`);
      }
    }
  }
  const body = [];
  for (const a of asserts) if (a !== T.TRUE) body.push(`(assert ${pr(a)})`);
  for (const a of quantified) body.push(`(assert ${pr(a)})`);
  const terms = extra.map(pr);
  let s = "";
  if (bits) s += BITDEFS + "\n";
  for (const f of decl.values()) s += `(declare-fun |${f.name}| (${"Int ".repeat(f.arity).trim()}) ${f.sort})\n`;
  s += [...defs, ...ranges, ...body].join("\n") + "\n";
  return { text: s, decl, terms };
}

const cache = new Map();
// quick satisfiability of a conjunction of facts; never wrong, may say unknown
export function quickCheck(text, timeoutMs = 1500) {
  const k = text;
  if (cache.has(k)) return cache.get(k);
  quick ??= new Pipe("z3-new", ["-in", "-smt2"]);
  const t0 = Date.now();
  const r = quick.ask(`(push)\n(set-option :timeout ${timeoutMs})\n${text}(check-sat)\n(pop)`, timeoutMs * 4 + 4000);
  stats.queries++;
  stats.ms += Date.now() - t0;
  if (process.env.VSLOW && Date.now() - t0 > 200) {
    console.error('slow', Date.now() - t0, timeoutMs, text.length, r?.trim());
    fs.writeFileSync('/tmp/slow-' + stats.queries + '.smt2', text);
  }
  let a = r === null ? "unknown" : (r.match(/^(sat|unsat|unknown)/m)?.[1] ?? "error");
  if (a === "error") {
    fs.writeFileSync(path.join(os.tmpdir(), "vsmt-error.smt2"), text + "\n;; " + r);
    throw new Error("solver error: " + r.slice(0, 300));
  }
  cache.set(k, a);
  return a;
}
export function quickModel(text, terms, timeoutMs = 4000) {
  quick ??= new Pipe("z3-new", ["-in", "-smt2"]);
  const r = quick.ask(`(push)\n(set-option :timeout ${timeoutMs})\n${text}(check-sat)\n${terms.map((t) => `(eval ${t} :completion true)`).join("\n")}\n(pop)`, timeoutMs * 4 + 4000);
  if (r === null || /\(error/.test(r)) return null;
  const lines = r.trim().split("\n");
  if (!/^sat/.test(lines[0]) && !/^unknown/.test(lines[0])) return null;
  return { status: lines[0], values: lines.slice(1).map((l) => l.trim()) };
}

const BACKENDS = [
  ["z3-new", (ms) => ["-smt2", `-T:${Math.ceil(ms / 1000)}`]],
  ["z3", (ms) => ["-smt2", `-T:${Math.ceil(ms / 1000)}`]],
  ["cvc5", (ms) => ["--lang=smt2", `--tlimit=${ms}`, "--no-incremental"]],
];
export function backendVersions() {
  const v = {};
  for (const [c] of BACKENDS) {
    try {
      v[c] = execFileSync(c, ["--version"]).toString().split("\n")[0];
    } catch {
      v[c] = "?";
    }
  }
  return v;
}
function runOne(cmd, args, file, ms) {
  return new Promise((res) => {
    const p = spawn(cmd, [...args, file], { stdio: ["ignore", "pipe", "ignore"] });
    let out = "";
    p.stdout.on("data", (d) => out += d);
    const t = setTimeout(() => p.kill("SIGKILL"), ms + 1500);
    p.on("close", () => {
      clearTimeout(t);
      res(out.match(/^(sat|unsat|unknown)/m)?.[1] ?? "unknown");
    });
    p.on("error", () => res("unknown"));
    runOne.live.add(p);
    p.on("close", () => runOne.live.delete(p));
  });
}
runOne.live = new Set();
// portfolio; resolves to {answer, backend, ms}
export async function portfolio(texts, ms) {
  // texts: array of alternative encodings; the first unsat wins
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vobl-"));
  const t0 = Date.now();
  try {
    const jobs = [];
    texts.forEach((text, i) => {
      const f = path.join(dir, i + ".smt2");
      fs.writeFileSync(f, `(set-logic ALL)\n${text}(check-sat)\n`);
      for (const [cmd, args] of BACKENDS) jobs.push([cmd, args(ms), f, i]);
    });
    return await new Promise((resolve) => {
      let left = jobs.length, ans = "unknown";
      const procs = new Set();
      let doneFlag = false;
      for (const [cmd, args, f, i] of jobs) {
        const p = spawn(cmd, [...args, f], { stdio: ["ignore", "pipe", "ignore"] });
        procs.add(p);
        let out = "";
        p.stdout.on("data", (d) => out += d);
        const timer = setTimeout(() => p.kill("SIGKILL"), ms + 1500);
        p.on("error", () => {});
        p.on("close", () => {
          clearTimeout(timer);
          procs.delete(p);
          left--;
          const a = out.match(/^(sat|unsat|unknown)/m)?.[1] ?? "unknown";
          if (doneFlag) return;
          if (a === "unsat") {
            doneFlag = true;
            for (const q of procs) q.kill("SIGKILL");
            resolve({ answer: "unsat", backend: cmd, ms: Date.now() - t0 });
          } else {
            if (a === "sat" && i === 0) ans = "sat";
            if (left === 0) resolve({ answer: ans, backend: "all", ms: Date.now() - t0 });
          }
        });
      }
    });
  } finally {
    fs.rmSync(dir, { recursive: true, force: true });
  }
}
