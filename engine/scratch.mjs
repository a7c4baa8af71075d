// Import map for Deno and for the verifier; optional copy of /repo in which #private names can be read by contracts.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
export function importMapFor(copyDir, tmp) {
  const im = JSON.parse(fs.readFileSync("/opt/mtkruto-deps/import_map.json", "utf8"));
  const out = { imports: {} };
  const flat = {};
  for (const [k, v] of Object.entries(im.imports)) {
    const p = v.startsWith("file://") ? v.slice(7) : v.startsWith("/") ? v : new URL(v, "file:///opt/mtkruto-deps/").pathname;
    flat[k] = p;
    out.imports[k] = "file://" + p;
  }
  if (im.scopes) {
    out.scopes = {};
    for (const [s, m] of Object.entries(im.scopes)) {
      const key = s.startsWith("file://") || s.startsWith("/") ? s : new URL(s, "file:///opt/mtkruto-deps/").href;
      out.scopes[key] = {};
      for (const [k, v] of Object.entries(m)) out.scopes[key][k] = v.startsWith("file://") ? v : "file://" + new URL(v, "file:///opt/mtkruto-deps/").pathname;
    }
  }
  if (copyDir) out.imports["file:///repo/"] = "file://" + copyDir + "/";
  const map = path.join(tmp, "import_map.json");
  fs.writeFileSync(map, JSON.stringify(out));
  const cfg = JSON.parse(fs.readFileSync("/repo/deno.json".replace(".json", fs.existsSync("/repo/deno.json") ? ".json" : ".jsonc"), "utf8").replace(/^\s*\/\/.*$/gm, ""));
  fs.writeFileSync(path.join(tmp, "deno.json"), JSON.stringify({ compilerOptions: cfg.compilerOptions ?? {}, unstable: cfg.unstable }));
  return { map, flat };
}
// mechanical: every private identifier token `#x` becomes `_priv_x`; nothing else changes
export function privateCopy(tmp) {
  const ts = createRequire("/opt/veriftools/node/")("typescript");
  const dst = path.join(tmp, "repo");
  const walk = (d, o) => {
    fs.mkdirSync(o, { recursive: true });
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      if (e.name === ".git" || e.name === "node_modules" || e.name === "tests" || e.name === "dist") continue;
      const a = path.join(d, e.name), b = path.join(o, e.name);
      if (e.isDirectory()) walk(a, b);
      else if (e.name.endsWith(".ts") || e.name.endsWith(".json")) {
        let s = fs.readFileSync(a, "utf8");
        if (e.name.endsWith(".ts") && /#[A-Za-z_$]/.test(s)) {
          const sf = ts.createSourceFile(a, s, ts.ScriptTarget.ESNext, true);
          const edits = [];
          const visit = (n) => {
            if (ts.isPrivateIdentifier(n)) {
              const isIn = ts.isBinaryExpression(n.parent) && n.parent.operatorToken.kind === ts.SyntaxKind.InKeyword;
              edits.push([n.getStart(), n.end, isIn ? JSON.stringify("_priv_" + n.text.slice(1)) : "_priv_" + n.text.slice(1)]);
            }
            ts.forEachChild(n, visit);
          };
          visit(sf);
          for (const [x, y, t] of edits.reverse()) s = s.slice(0, x) + t + s.slice(y);
        }
        fs.writeFileSync(b, s);
      }
    }
  };
  walk("/repo", dst);
  return dst;
}
