#!/usr/bin/env node
// node bin/replay.mjs replays/<file>.json   re-executes the failing input of a VIOLATION on /repo's working tree
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { PROPS } from "../spec/registry.mjs";
import { runConcrete } from "../engine/concrete.mjs";
import { importMapFor, privateCopy } from "../engine/scratch.mjs";
const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const r = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
if (!r.input) {
  console.log(`obligation "${r.obligation}" of ${r.lemma} was not discharged${r.at ? " at " + r.at : ""}; no failing input was found. Verifier output: ${JSON.stringify(r.verifier)}`);
  process.exit(1);
}
const P = PROPS[r.property];
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "vrep-"));
const { map } = importMapFor(P.private ? privateCopy(tmp) : null, tmp);
const o = await runConcrete({ tmp, denoMap: map, specFile: path.join(VERIF, "spec", P.spec), seed: 1, timeout: P.timeout, verbose: true }, [{ name: r.lemma, scripts: [r.input], runs: 0 }], 60000);
fs.rmSync(tmp, { recursive: true, force: true });
const f = o[r.lemma]?.failures?.[0];
console.log(f ? `reproduced: ${f.message}\n${f.stack ?? ""}\ninput: ${JSON.stringify(r.input.draws).slice(0, 2000)}` : o.$hang ? "reproduced: does not terminate" : "not reproduced: " + JSON.stringify(o).slice(0, 500));
process.exit(f || o.$hang ? 1 : 0);
