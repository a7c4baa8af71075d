# python3 tools/seed.py NAME   confirms seeded/NAME (patch, demo, tests) in a scratch copy.
# python3 tools/seed.py --new NAME PROPERTY SPECFILE   SPECFILE is python: edits=[(file,old,new)], demo=str, needs=str, breaks=str
import sys, os, json, subprocess, shutil, tempfile
V='/verif/seeded'
BASE=json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO='''#!/bin/bash
# exit 0: the property holds in the demonstrated case; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root NO_COLOR=1 DENO_DIR="$t" DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1
timeout 120 /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config deno.jsonc --import-map /opt/mtkruto-deps/import_map.json --unstable-kv --allow-read --allow-env "$here/demo.ts" < /dev/null
'''
def sh(c,cwd=None,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return r.returncode,r.stdout.decode(errors='replace')
def confirm(n):
    d=f'{V}/{n}'; S=tempfile.mkdtemp(prefix='seed-'); R=S+'/repo'
    try:
        sh(f'cp -a /repo {R}')
        sh('git checkout -- . && git clean -fdq',R)
        c,o=sh(f'bash {d}/demo.sh',R)
        if c!=0: return f'demo fails on the unchanged tree: {o[-800:]}'
        c,o=sh(f'git apply {d}/patch.diff',R)
        if c: return 'patch does not apply: '+o
        c,o=sh(f'bash {d}/demo.sh',R)
        if c==0: return 'demo passes with the patch'
        dm=o[-300:]
        for f in ('build','test'):
            open(f'{S}/{f}.sh','w').write(open(f'/opt/vp/{f}.sh').read().replace('/repo',R))
        c,o=sh(f'bash {S}/build.sh')
        if c: return 'build fails: '+o[-1500:]
        sh(f'bash {S}/test.sh {S}/out.json')
        try: j=json.load(open(f'{S}/out.json'))
        except Exception as e: return 'no test result '+str(e)
        passed=set(j.get('passed') or [k for k,v in j.items() if v in ('pass','passed')])
        bad=[t for t in BASE if t not in passed]
        if bad: return f'tests fail: {bad[:5]}'
        print('confirmed',n,'|',dm.strip().replace(chr(10),' ')[-160:])
        return None
    finally: shutil.rmtree(S)
if sys.argv[1]=='--new':
    _,_,n,prop,spec=sys.argv
    g={}; exec(open(spec).read(),g)
    d=f'{V}/{n}'; os.makedirs(d,exist_ok=True)
    S=tempfile.mkdtemp(prefix='seed-')
    sh(f'cp -a /repo {S}/repo'); R=S+'/repo'
    sh('git checkout -- .',R)
    for f,old,new in g['edits']:
        s=open(f'{R}/{f}').read()
        assert s.count(old)==1,(f,old,s.count(old))
        open(f'{R}/{f}','w').write(s.replace(old,new))
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','diff'],cwd=R).decode())
    shutil.rmtree(S)
    open(f'{d}/demo.sh','w').write(DEMO)
    open(f'{d}/demo.ts','w').write(g['demo'])
    json.dump({"property":prop,"needs":g['needs'],"what_it_breaks":g['breaks']},open(f'{d}/meta.json','w'),indent=1)
    e=confirm(n)
    if e: print('REJECTED',n,e); shutil.rmtree(d); sys.exit(1)
else:
    for n in sys.argv[1:]:
        e=confirm(n)
        if e: print('REJECTED',n,e)
