# Writes /verif/MANIFEST.json from properties.jsonl and the registry (run with python3-vt).
import json, subprocess, jsonschema
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
reg=json.loads(subprocess.check_output(['node','-e',"import('/verif/spec/registry.mjs').then(m=>console.log(JSON.stringify(m.PROPS)))"]))
NA=json.load(open('/verif/tools/not_applicable.json'))
checks=[]
for p in props:
    r=reg.get(p['id'])
    if not r or p['id'] in NA: continue
    L=r['lemmas']
    ded=[n for n,l in L.items() if not l.get('concreteOnly')]
    proved=[n for n in ded if not L[n].get('bounded')]
    bounded=[f"{n} ({L[n]['bounded']})" for n in ded if L[n].get('bounded')]
    execd=[n for n,l in L.items() if l.get('concreteOnly')]
    note=[]
    if proved: note.append("Proved for all inputs by symbolic verification-condition generation over the real code: "+", ".join(proved)+".")
    if bounded: note.append("Bounded (labelled so, not counted as proof for every input): "+"; ".join(bounded)+".")
    if execd: note.append("Executed only, as runtime contract checking: "+", ".join(execd)+".")
    note.append("Trusted: the verification-condition generator in engine/ and its models of the built-ins, the SMT solvers"+("; "+"; ".join(r.get('trusted',[])) if r.get('trusted') else "")+".")
    checks.append({"property":p['id'],"quick_cmd":f"node bin/check.mjs {p['id']}","thorough_cmd":f"node bin/check.mjs {p['id']} --thorough","evidence_file":f"evidence/{p['id']}.json","technique":"contract-based deductive verification (VC generation from the TypeScript source, SMT; contracts also executed)","level":r.get('level','proof' if proved else 'other'),"level_note":" ".join(note)})
m={"version":1,"setup_cmd":"bash bin/setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]}
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
ids={p['id'] for p in props}
assert ids=={c['property'] for c in checks}|set(NA), ids^({c['property'] for c in checks}|set(NA))
print(len(checks),'checks')
