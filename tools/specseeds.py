# python3 tools/specseeds.py LISTFILE [NAME...]: seeds whose demonstration is a contract file of spec/ run on real inputs.
# LISTFILE is python: L=[(name, property, [(file,old,new)...], spec, lemma, runs, needs, breaks)...]
import sys, os, re, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V='/verif/seeded'; SPEC='/verif/spec'
sys.argv_=sys.argv; argv=sys.argv; sys.argv=['seed.py','']
src=open('/verif/tools/seed.py').read().split("if sys.argv[1]=='--new':")[0]
exec(src)
DEMO='''#!/bin/bash
# exit 0: the property holds in the demonstrated cases; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
for f in "$here"/*.ts; do sed "s|file:///repo/|file://$PWD/|g" "$f" > "$t/$(basename "$f")"; done
export HOME=/root NO_COLOR=1 DENO_DIR="$t/deno" DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1
timeout 250 /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config deno.jsonc --import-map /opt/mtkruto-deps/import_map.json --unstable-kv --allow-read --allow-env "$t/demo.ts" < /dev/null
'''
def deps(f,seen):
    if f in seen: return
    seen.add(f)
    for m in re.findall(r'from "\./([a-z0-9_]+\.ts)"',open(f'{SPEC}/{f}').read()): deps(m,seen)
def one(e):
    n,prop,edits,spec,lemma,runs,needs,breaks=e
    d=f'{V}/{n}'
    if os.path.exists(d): return f'exists {n}'
    S=tempfile.mkdtemp(prefix='seed-')
    try:
        sh(f'cp -a /repo {S}/repo'); R=S+'/repo'
        sh('git checkout -- .',R)
        for f,old,new in edits:
            s=open(f'{R}/{f}').read()
            if s.count(old)!=1: return f'REJECTED {n}: {s.count(old)} occurrences of {old!r}'
            open(f'{R}/{f}','w').write(s.replace(old,new))
        os.makedirs(d)
        open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','diff'],cwd=R).decode())
    finally: shutil.rmtree(S)
    open(f'{d}/demo.sh','w').write(DEMO)
    files=set(); deps(spec,files); files.add('ghost.ts')
    for f in files: shutil.copy(f'{SPEC}/{f}',f'{d}/{f}')
    open(f'{d}/demo.ts','w').write(f'''import * as G from "./ghost.ts";
import * as L from "./{spec}";
for (let seed = 1; seed <= {runs}; ++seed) {{
  G.begin(seed, null);
  try {{
    await (L as any).{lemma}();
  }} catch (err) {{
    if (err instanceof G.Discard) continue;
    console.log(seed, (err as any)?.assertion ?? err);
    Deno.exit(1);
  }} finally {{
    G.end();
  }}
}}
Deno.exit(0);
''')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    try: r=confirm(n)
    except Exception as x: r=repr(x)
    if r:
        shutil.rmtree(d)
        return f'REJECTED {n}: {r[:600]}'
    return f'ok {n}'
g={}; exec(open(argv[1]).read(),g)
todo=[e for e in g['L'] if len(argv)==2 or e[0] in argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,todo): print(r,flush=True)
