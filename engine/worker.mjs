// Verifies one contract lemma: node worker.mjs JOB.json OUT.json
import fs from "node:fs";
import { Budget, Explorer } from "./explore.mjs";
import { OutOfFragment } from "./interp.mjs";
import * as SOL from "./solver.mjs";
const [jobFile, outFile] = process.argv.slice(2);
const job = JSON.parse(fs.readFileSync(jobFile, "utf8"));
const t0 = Date.now();
const X = new Explorer(job.specFile, job.lemma, { importMap: job.importMap, budgetMs: job.budgetMs, obligationMs: job.obligationMs, maxUnroll: job.maxUnroll, maxPaths: job.maxPaths, nlMs: job.nlMs, templates: job.templates, unroll: job.unroll, cutForever: job.cutForever, plainCrypto: job.plainCrypto, looseCrypto: job.looseCrypto });
const res = { lemma: job.lemma, error: null };
try {
  X.run();
} catch (e) {
  res.error = { kind: e instanceof OutOfFragment ? "out-of-fragment" : e instanceof Budget ? "budget" : "internal", message: String(e.message).slice(0, 600), stack: e instanceof OutOfFragment || e instanceof Budget ? undefined : String(e.stack).slice(0, 1200) };
}
const obs = [...X.obligations.values()];
const open = obs.filter((o) => o.status !== "proved");
res.scripts = [];
// a path that leaves the proof's fragment still leaves the open obligations found before it
const tried = open.slice(0, job.maxOpen ?? 6);
for (const o of tried) {
  if (!o.texts) continue;
  if (o.answer !== "sat" || o.texts.length > 1) {
    const r = await SOL.portfolio(o.texts, job.portfolioMs ?? 15000);
    if (r.answer === "unsat") {
      o.status = "proved";
      o.backend = r.backend;
      o.ms += r.ms;
      continue;
    }
    o.answer = r.answer;
  }
}
const byName = new Set();
for (const o of tried) {
  if (o.status === "proved" || !o.draws || res.scripts.length >= 8) continue;
  const k = o.name + o.node;
  if (byName.has(k) && byName.size > 4) continue;
  byName.add(k);
  const s = X.counterexample(o, 3000);
  if (s) res.scripts.push({ ...s, from: `solver counterexample for "${o.name}" (${o.node})` });
}
res.obligations = obs.map((o) => ({ name: o.name, at: o.node, path: o.trace, status: o.status, backend: o.backend, ms: o.ms, answer: o.answer }));
res.openQueries = tried.filter((o) => o.status !== "proved" && o.texts).slice(0, 2).map((o) => ({ name: o.name, at: o.node, smt: o.texts[0].slice(0, 200000) }));
res.loops = [...X.kept.values()];
res.loopsSeen = X.loopsSeen.size;
res.functions = [...X.coverage].filter((f) => !f.includes("/verif/spec/"));
res.unsafe = [...X.unsafe.keys()];
res.trusted = [...X.trusted];
res.asserts = [...X.asserts];
res.paths = X.paths;
res.rounds = X.rounds;
res.outcomes = X.outcomes;
res.queries = SOL.stats.queries;
res.solverMs = SOL.stats.ms;
res.wallMs = Date.now() - t0;
fs.writeFileSync(outFile, JSON.stringify(res));
SOL.closeAll();
process.exit(0);
