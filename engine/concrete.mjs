// Running contract lemmas concretely (Deno) in a scratch directory.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const run = (cmd, argv, opts, ms) =>
  new Promise((res) => {
    const p = spawn(cmd, argv, { stdio: ["ignore", "pipe", "pipe"], ...opts });
    let out = "", err = "", killed = false;
    p.stdout.on("data", (d) => out.length < 1e6 && (out += d));
    p.stderr.on("data", (d) => err.length < 1e6 && (err += d));
    const t = setTimeout(() => {
      killed = true;
      p.kill("SIGKILL");
    }, ms);
    p.on("close", (code) => {
      clearTimeout(t);
      res({ code, out, err, killed });
    });
    p.on("error", (e) => res({ code: -1, out, err: String(e), killed }));
  });
let n = 0;
export async function runConcrete({ tmp, denoMap, specFile, seed, timeout, verbose }, list, ms, stopOnScript = true) {
  const k = n++;
  const job = path.join(tmp, `job${k}.json`), out = path.join(tmp, `out${k}.json`);
  fs.writeFileSync(job, JSON.stringify({ ghost: "file://" + VERIF + "/spec/ghost.ts", spec: "file://" + specFile, lemmas: list, seed, timeout: timeout ?? 4000, stopOnScript, verbose }));
  const env = { ...process.env, DENO_DIR: path.join(tmp, "deno"), DENO_NO_UPDATE_CHECK: "1", DENO_NO_PROMPT: "1", DENO_NO_PACKAGE_JSON: "1", NO_COLOR: "1", HOME: process.env.HOME ?? "/root" };
  // only what the lemmas need: reads, and writes inside this run's scratch directory
  const r = await run("/opt/deno/deno", ["run", "--no-check", "--cached-only", "--no-remote", "--no-npm", "--no-lock", "--config", path.join(tmp, "deno.json"), "--import-map", denoMap, "--unstable-kv", "--allow-read", "--allow-env", "--allow-write=" + tmp, path.join(VERIF, "engine", "run_concrete.ts"), job, out], { env, cwd: tmp }, ms);
  let res = {};
  try {
    res = JSON.parse(fs.readFileSync(out, "utf8"));
  } catch { /* no result */ }
  if (r.killed) {
    let pr = null;
    try {
      pr = JSON.parse(fs.readFileSync(out + ".progress", "utf8"));
    } catch { /* none */ }
    res.$hang = pr ?? { lemma: list[0].name };
  } else if (r.code !== 0 && !Object.keys(res).length) res.$crash = (r.err || r.out).slice(0, 2000);
  return res;
}
