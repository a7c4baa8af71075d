import json,os
rows=[]
for n in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{n}/meta.json')); rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t="\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
s=open('/verif/DESIGN.md').read()
if '@@SEEDS@@' in s: s=s.replace('@@SEEDS@@','<!-- seeds -->'+t+'<!-- /seeds -->')
else:
    a,b=s.index('<!-- seeds -->'),s.index('<!-- /seeds -->'); s=s[:a]+'<!-- seeds -->'+t+s[b:]
open('/verif/DESIGN.md','w').write(s)
