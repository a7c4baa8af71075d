// Executes contract lemmas on the real code under Deno: counterexample replay and sampled runtime checks.
// deno-lint-ignore-file no-explicit-any
const job = JSON.parse(Deno.readTextFileSync(Deno.args[0]));
const G: any = await import(job.ghost);
const results: any = {};
const emit = () => Deno.writeTextFileSync(Deno.args[1], JSON.stringify(results));
let rejected: any = null;
globalThis.addEventListener("unhandledrejection", (e: any) => {
  e.preventDefault();
  rejected = e.reason;
});
let mod: any;
const quiet = () => {};
console.log = console.debug = console.info = quiet as any;
if (!job.verbose) console.error = console.warn = quiet as any;
try {
  mod = await import(job.spec);
} catch (e: any) {
  results.$import = String(e?.stack ?? e);
  emit();
  Deno.exit(0);
}
const hash = (s: string) => {
  let h = 2166136261;
  for (const c of s) h = Math.imul(h ^ c.charCodeAt(0), 16777619);
  return h >>> 0;
};
const progress = Deno.openSync(Deno.args[1] + ".progress", { create: true, write: true, truncate: true });
const enc = new TextEncoder();
let current = "";
async function once(f: any, seed: number, script: any, timeout: number) {
  progress.seekSync(0, 0);
  progress.writeSync(enc.encode(JSON.stringify({ lemma: current, seed, scripted: !!script }).padEnd(200)));
  G.begin(seed, script);
  let out: any = { status: "ok" };
  try {
    const p = f();
    if (p && typeof p.then === "function") {
      let timer: any;
      const to = new Promise((_, rej) => timer = G.realTimers.setTimeout(() => rej(new G.ContractFailure("lemma completes (a promise is never settled)")), timeout));
      try {
        await Promise.race([p, to]);
      } finally {
        G.realTimers.clearTimeout(timer);
      }
    }
  } catch (e: any) {
    if (e instanceof G.Discard) out = { status: "discard" };
    else if (e instanceof G.ContractFailure) out = { status: "fail", message: e.assertion };
    else out = { status: "fail", message: "no uncaught exception (" + (e?.name ?? typeof e) + ": " + (e?.message ?? e) + ")", stack: String(e?.stack ?? "").slice(0, 1500) };
  } finally {
    G.end();
  }
  out.draws = { draws: G.state.draws, random: G.state.rndDraws, now: G.state.nowDraws };
  return out;
}
for (const l of job.lemmas) {
  const f = mod[l.name];
  const r: any = results[l.name] = { runs: 0, discards: 0, hits: {}, failures: [], scripts: 0, nontrivial: 0 };
  if (!f) {
    r.missing = true;
    continue;
  }
  current = l.name;
  G.state.hits.clear();
  for (const script of l.scripts ?? []) {
    r.scripts++;
    const o = await once(f, 1, script, job.timeout ?? 4000);
    if (o.status === "fail") r.failures.push({ ...o, from: script.from ?? "script" });
  }
  const t0 = performance.now();
  const distinct = new Set<string>();
  if (!r.failures.length || !job.stopOnScript) {
    for (let i = 0; i < (l.runs ?? 0); i++) {
      if (performance.now() - t0 > (l.ms ?? 5000)) break;
      const seed = (hash(l.name) ^ Math.imul(job.seed ?? 1, 2654435761)) + Math.imul(i, 0x9E3779B1);
      const o = await once(f, seed, null, job.timeout ?? 4000);
      if (o.status === "discard") {
        r.discards++;
        continue;
      }
      r.runs++;
      if (distinct.size < 20000) distinct.add(JSON.stringify(o.draws).slice(0, 300));
      if (i < 2) (r.samples ??= []).push(JSON.stringify(o.draws.draws.slice(0, 6)).slice(0, 200));
      if (o.status === "fail") {
        r.failures.push({ ...o, from: "sampled", seed, index: i });
        if (r.failures.length >= (l.maxFailures ?? 1)) break;
      }
    }
  }
  r.distinct = distinct.size;
  r.hits = Object.fromEntries(G.state.hits);
  r.ms = Math.round(performance.now() - t0);
  emit();
}
void rejected;
emit();
Deno.exit(0);
