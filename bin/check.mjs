#!/usr/bin/env node
// node bin/check.mjs <PROPERTY> [--thorough] [--only lemma,...]   decides one property on /repo's working tree
import { execFileSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { PROPS } from "../spec/registry.mjs";
import { run, runConcrete } from "../engine/concrete.mjs";
import { importMapFor, privateCopy } from "../engine/scratch.mjs";

const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const args = process.argv.slice(2);
const id = args.find((a) => !a.startsWith("-"));
const tier = args.includes("--thorough") ? "thorough" : process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const only = args.includes("--only") ? args[args.indexOf("--only") + 1].split(",") : null;
const verbose = args.includes("-v");
const seed = Number(process.env.VERIF_SEED ?? 1) | 0;
const P = PROPS[id];
if (!P) {
  console.error("unknown property " + id);
  process.exit(2);
}
const t0 = Date.now();
const thorough = tier === "thorough";
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "vchk-" + id + "-"));
const specFile = path.join(VERIF, "spec", P.spec);
const { map: denoMap, flat } = importMapFor(P.private ? privateCopy(tmp) : null, tmp);
const lemmas = Object.entries(P.lemmas).filter(([n]) => !only || only.includes(n));
const cleanup = () => fs.rmSync(tmp, { recursive: true, force: true });
process.on("exit", cleanup);

const cfg = { tmp, denoMap, specFile, seed, timeout: P.timeout, verbose };
const concrete = (list, ms) => runConcrete(cfg, list, ms);
const SIZE = thorough ? 10 : 1;
async function symbolic(name, L) {
  const job = path.join(tmp, `sym-${name}.json`), out = path.join(tmp, `sym-${name}.out.json`);
  const budget = (L.budgetMs ?? 120000) * (thorough ? 3 : 1);
  fs.writeFileSync(job, JSON.stringify({ specFile, lemma: name, importMap: flat, budgetMs: Math.min(budget, 600000), obligationMs: (L.obligationMs ?? 4000) * (thorough ? 3 : 1), portfolioMs: thorough ? 60000 : L.portfolioMs ?? 12000, maxUnroll: L.maxUnroll, maxPaths: L.maxPaths, nlMs: L.nlMs, templates: L.templates, unroll: L.unroll, cutForever: L.cutForever, plainCrypto: L.plainCrypto, looseCrypto: L.looseCrypto }));
  const r = await run(process.execPath, ["--stack-size=16000", "--max-old-space-size=6000", path.join(VERIF, "engine", "worker.mjs"), job, out], {}, Math.min(budget + 240000, 760000));
  try {
    return JSON.parse(fs.readFileSync(out, "utf8"));
  } catch {
    return { lemma: name, error: { kind: r.killed ? "budget" : "internal", message: r.killed ? "verifier time limit" : (r.err || "verifier crashed").slice(0, 800) }, obligations: [], scripts: [], functions: [], loops: [], unsafe: [], trusted: [], asserts: [], solverMs: 0, queries: 0, paths: 0 };
  }
}

// ---------- known findings ----------
const known = JSON.parse(fs.readFileSync(path.join(VERIF, "known_findings.json"), "utf8")).findings.filter((f) => f.property === id);

// ---------- run ----------
const deductive = lemmas.filter(([, L]) => !L.concreteOnly);
const sampledAll = lemmas.filter(([, L]) => !L.symbolicOnly).map(([name, L]) => ({ name, runs: (L.runs ?? 400) * SIZE, ms: (L.ms ?? 4000) * SIZE, maxFailures: 1 }));
const groups = [];
const G = Math.min(3, sampledAll.length);
for (let i = 0; i < G; i++) groups.push(sampledAll.filter((_, k) => k % G === i));
const tasks = [];
for (const [name, L] of deductive) tasks.push({ kind: "sym", name, L, w: L.weight ?? 1 });
tasks.sort((a, b) => b.w - a.w);
for (const g of groups.reverse()) if (g.length) tasks.unshift({ kind: "con", list: g });
const sym = {}, con = {};
const hangs = [], crashes = [];
const budgetOf = (list) => list.reduce((s, l) => s + (l.ms ?? 4000), 0) + 25000 + list.length * 4000;
await new Promise((resolve) => {
  let live = 0;
  const next = () => {
    if (!tasks.length && !live) return resolve();
    while (live < 8 && tasks.length) {
      const t = tasks.shift();
      live++;
      (t.kind === "sym" ? symbolic(t.name, t.L).then((r) => sym[t.name] = r) : concrete(t.list, budgetOf(t.list)).then((r) => {
        if (r.$hang) hangs.push(r.$hang);
        if (r.$crash) crashes.push(r.$crash);
        if (r.$import) crashes.push(r.$import);
        for (const [k, v] of Object.entries(r)) if (!k.startsWith("$")) con[k] = v;
      })).then(() => {
        live--;
        next();
      });
    }
  };
  next();
});

// ---------- verdict ----------
const failures = []; // {lemma, assertion, draws?, from}
for (const [name, r] of Object.entries(con)) for (const f of r.failures ?? []) failures.push({ lemma: name, assertion: f.message, draws: f.draws, from: f.from, stack: f.stack });
for (const h of hangs) failures.push({ lemma: h.lemma, assertion: "the lemma terminates", draws: null, seed: h.seed, from: h.scripted ? "replay" : "sampled", hang: true });
const openOf = (r) => r.obligations.filter((o) => o.status !== "proved");
const unproved = [];
for (const [name] of deductive) {
  const r = sym[name];
  const o = openOf(r);
  if (r.error || o.length) unproved.push({ lemma: name, error: r.error, open: o });
  else if (!r.obligations.length) unproved.push({ lemma: name, error: { kind: "vacuous", message: "no obligation was generated" }, open: [] });
}
// replay counterexamples, then search harder for a failing input of the lemmas that did not verify
if (unproved.length) {
  const list = unproved.filter((u) => !failures.some((f) => f.lemma === u.lemma) && !P.lemmas[u.lemma].symbolicOnly).map((u) => ({ name: u.lemma, scripts: sym[u.lemma].scripts, runs: 4000, ms: Math.min(60000, (P.lemmas[u.lemma].ms ?? 4000) * 4), maxFailures: 1 }));
  const cap = list.slice(0, 12);
  const rs = await Promise.all(cap.map((l) => concrete([l], budgetOf([l]))));
  rs.forEach((r, i) => {
    if (r.$hang) failures.push({ lemma: cap[i].name, assertion: "the lemma terminates", draws: null, from: "replay", hang: true });
    for (const f of r[cap[i].name]?.failures ?? []) failures.push({ lemma: cap[i].name, assertion: f.message, draws: f.draws, from: f.from, stack: f.stack });
  });
}
const isKnown = (lemma, assertion) => known.find((k) => k.lemma === lemma && (!k.assertion || assertion.startsWith(k.assertion)));
const report = [];
const knownHit = new Set();
for (const f of failures) {
  const k = isKnown(f.lemma, f.assertion);
  if (k) knownHit.add(k);
  else report.push({ ...f, input: true });
}
for (const u of unproved) {
  if (report.some((r) => r.lemma === u.lemma)) continue;
  const open = u.open.filter((o) => {
    const k = isKnown(u.lemma, o.name);
    if (k) knownHit.add(k);
    return !k;
  });
  if (u.error || open.length) report.push({ lemma: u.lemma, assertion: open[0]?.name ?? u.error.message, at: open[0]?.at, input: false, error: u.error, answer: open[0]?.answer, queries: sym[u.lemma].openQueries });
}
for (const c of crashes) if (!report.length) report.push({ lemma: "(import)", assertion: "the contract file loads against the real code", input: false, error: { kind: "load", message: c } });

// ---------- evidence ----------
const all = deductive.flatMap(([n]) => sym[n].obligations.map((o) => ({ ...o, lemma: n })));
const discharged = all.filter((o) => o.status === "proved");
const by = {};
for (const o of discharged) by[o.backend] = (by[o.backend] ?? 0) + 1;
const fns = new Set(deductive.flatMap(([n]) => sym[n].functions));
const loopsProved = deductive.flatMap(([n]) => sym[n].loops);
const evals = Object.values(con).reduce((s, r) => s + (r.runs ?? 0) + (r.scripts ?? 0), 0);
const distinct = Object.values(con).reduce((s, r) => s + (r.distinct ?? 0), 0);
const bounded = lemmas.filter(([, L]) => L.bounded).map(([n, L]) => `${n}: bounded, ${L.bounded}`);
const short = (f) => f.replace(/^.*?\/repo\//, "").replace(/^.*mtkruto-deps\//, "deps:");
const trusted = [...new Set([...(P.trusted ?? []), ...deductive.flatMap(([n]) => sym[n].trusted)])];
const unsafe = [...new Set(deductive.flatMap(([n]) => sym[n].unsafe))].map(short).filter((u) => !u.includes("verif/spec"));
const isBounded = (o) => !!P.lemmas[o.lemma]?.bounded;
const ev = {
  property: id,
  tier,
  seed,
  level: P.level ?? (deductive.some(([, L]) => !L.bounded) ? "proof" : "other"),
  coverage: {
    // those of bounded lemmas are counted apart
    obligations: all.filter((o) => !isBounded(o)).length,
    discharged: discharged.filter((o) => !isBounded(o)).length,
    bounded_obligations: all.filter(isBounded).length,
    bounded_discharged: discharged.filter(isBounded).length,
    checker_cmd: `node bin/check.mjs ${id}${thorough ? " --thorough" : ""}`,
    trusted_base: [
      "engine/: the verification-condition generator for the TypeScript fragment (symbolic execution of the real syntax trees, loop cuts with Houdini-inferred invariants) and its models of the ECMAScript/Web built-ins",
      "the TypeScript compiler's parser; " + backends(),
      ...trusted,
    ],
    discharged_by_backend: by,
    solver_ms: deductive.reduce((s, [n]) => s + (sym[n].solverMs ?? 0), 0),
    solver_queries: deductive.reduce((s, [n]) => s + (sym[n].queries ?? 0), 0),
    paths: deductive.reduce((s, [n]) => s + (sym[n].paths ?? 0), 0),
    functions_under_contract: [...fns].map(short).sort(),
    loops_with_proved_invariants: loopsProved.map((l) => ({ loop: short(l.where), invariants: l.inv.length })),
    lemmas: Object.fromEntries(deductive.map(([n]) => [n, { obligations: sym[n].obligations.length, discharged: sym[n].obligations.filter((o) => o.status === "proved").length, paths: sym[n].paths, wall_ms: sym[n].wallMs, ...(sym[n].error ? { error: sym[n].error } : {}) }])),
    bounded_lemmas: bounded,
    evaluations: all.length + evals,
    distinct_nontrivial: new Set(all.filter((o) => o.backend !== "simplifier").map((o) => o.lemma + o.name + o.path)).size + distinct,
    rule: "one evaluation per proof obligation decided and per contract execution on the real code; nontrivial: obligations that needed a solver or a path fact, and executions whose drawn inputs differ",
    runtime_contract_executions: evals,
    assertion_hits: Object.fromEntries(Object.entries(con).map(([k, r]) => [k, r.hits])),
    samples: Object.values(con).flatMap((r) => r.samples ?? []).slice(0, 6).concat(all.slice(0, 4).map((o) => `${o.lemma}: ${o.name} @ ${short(o.at || "")} [${o.backend || o.status}]`)),
    explanation: P.explanation ?? "Each lemma executes the real functions symbolically for all inputs; every G.assert becomes a proof obligation on every path, loops are cut with proved invariants. The same lemmas then run concretely on the real code as a cross-check of the generator.",
  },
  assumptions: [
    ...(P.assumptions ?? []),
    ...(bounded.length ? ["bounded lemmas are not counted as proofs for every input: " + bounded.join("; ")] : []),
    ...(unsafe.length ? ["numbers are mathematical integers; machine arithmetic could leave the exact range at: " + unsafe.slice(0, 12).join(", ")] : ["numbers are mathematical integers; no visited operation can leave the exactly representable range"]),
    ...trusted,
    "termination is not proved (a run that does not end is reported by the runtime executions only)",
  ],
  wall_s: Math.round((Date.now() - t0) / 100) / 10,
  violations: report.length,
};
function backends() {
  const v = [];
  for (const c of ["z3-new", "z3", "cvc5"]) {
    try {
      v.push(execFileSync(c, ["--version"]).toString().split("\n")[0].slice(0, 60));
    } catch { /* absent */ }
  }
  return v.join("; ");
}
fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
if (!only) fs.writeFileSync(path.join(VERIF, "evidence", id + ".json"), JSON.stringify(ev, null, 1));

for (const [name] of lemmas) {
  const r = sym[name], c = con[name];
  console.log(`${id} ${name}: ` + (r ? `${r.obligations.filter((o) => o.status === "proved").length}/${r.obligations.length} obligations, ${r.paths} paths, ${((r.wallMs ?? 0) / 1000).toFixed(1)}s` + (r.error ? ` [${r.error.kind}: ${r.error.message}]` : "") : "(runtime only)") + (c ? `; ${c.runs} executions, ${c.discards} discarded, ${c.failures.length} failures (${c.ms}ms)` : "; no executions"));
  if (verbose && r) for (const o of openOf(r).slice(0, 4)) console.log("   open: " + o.name + " @ " + o.at + " " + o.answer);
  if (verbose && r?.error?.stack) console.log(r.error.stack);
}
for (const k of knownHit) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
if (report.length) {
  const best = report.find((r) => r.input) ?? report[0];
  const dir = path.join(VERIF, "replays");
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}-${best.lemma.replace(/\W/g, "")}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, lemma: best.lemma, obligation: best.assertion, at: best.at, input: best.draws ?? null, seed: best.seed, hang: best.hang, found_by: best.from, stack: best.stack, verifier: best.error ?? best.answer, queries: best.queries, how: `node bin/replay.mjs ${file}`, all: report.map((r) => ({ lemma: r.lemma, obligation: r.assertion, at: r.at, with_input: r.input, error: r.error, found_by: r.from })) }, null, 1));
  for (const r of report.slice(0, 8)) console.log(`  ${r.lemma}: ${r.assertion}${r.at ? " at " + short(r.at) : ""}${r.input ? " [" + r.from + "]" : " [" + (r.error ? r.error.kind + ": " + r.error.message : "solver: " + r.answer) + "]"}`);
  console.log(`VIOLATION property=${id} replay=${file}` + (best.input ? "" : " no-failing-input-found"));
  process.exitCode = 1;
} else console.log(`${id}: ${discharged.length}/${all.length} obligations discharged, ${evals} contract executions, ${ev.wall_s}s`);
