import json,os
seeds={}
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json')); seeds.setdefault(m['property'],[]).append((i,m))
body=open('/verif/tools/design_body.md').read()
t='| property | planted bugs caught by its check |\n|---|---|\n'
for p in sorted(seeds):
    t+=f"| {p} | "+'; '.join(f"{i.split('-',1)[1]} ({m['what_it_breaks']})" for i,m in seeds[p])+' |\n'
n=sum(map(len,seeds.values()))
open('/verif/DESIGN.md','w').write(body.replace('@SEEDS@',t).replace('@N@',str(n)))
