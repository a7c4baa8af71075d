import { Explorer } from "./explore.mjs";
import * as SOL from "./solver.mjs";
import * as T from "./term.mjs";
import fs from "node:fs";
const [spec, lemma] = process.argv.slice(2);
const im = JSON.parse(fs.readFileSync("/opt/mtkruto-deps/import_map.json", "utf8")).imports;
const importMap = {};
for (const [k, v] of Object.entries(im)) importMap[k] = v.startsWith("file://") ? v.slice(7) : v.startsWith("/") ? v : new URL(v, "file:///opt/mtkruto-deps/").pathname;
const { PROPS } = await import('/verif/spec/registry.mjs');
const L = Object.values(PROPS).find((p) => p.spec === spec)?.lemmas[lemma] ?? {};
const t0 = Date.now();
const X = new Explorer("/verif/spec/" + spec, lemma, { importMap, ...(process.env.MAXUNROLL ? { maxUnroll: +process.env.MAXUNROLL } : {}), ...L, log: (m) => process.env.VDEBUG && console.error(m) });
try {
  X.run();
} catch (e) {
  console.log("FAILED", e.constructor.name, e.stack?.split("\n").slice(0, 8).join("\n"));
}
const obs = [...X.obligations.values()];
console.log("rounds", X.rounds, "paths", X.paths, JSON.stringify(X.outcomes), "obligations", obs.length, "proved", obs.filter((o) => o.status === "proved").length, (Date.now() - t0) + "ms", "queries", SOL.stats.queries, SOL.stats.ms);
for (const [k, v] of X.kept) console.log("  loop", v.where, v.inv.join(" ; "));
const c = {};
for (const o of obs) (c[o.name] ??= { p: 0, u: 0 })[o.status === "proved" ? "p" : "u"]++;
console.log(c);
if (process.env.VDEBUG) for (const [w, n] of X.unsafe) console.log("  unsafe?", w, n);
for (const o of obs.filter((o) => o.status !== "proved").slice(0, 3)) {
  console.log("UNPROVED", o.name, o.node, o.trace, o.answer, o.texts?.map((t) => t.length));
  if (process.env.VDUMP) fs.writeFileSync(process.env.VDUMP, o.texts[0] + "(check-sat)\n");
}
SOL.closeAll();
process.exit(0);
