import json,glob,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
seeds={}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); seeds.setdefault(m['property'],[]).append(os.path.basename(d))
body={}
exec(open('/verif/tools/design_text.py').read())
out=HEAD
for p in props:
    i=p['id']
    out+="### %s %s\n\n%s\n"%(i,p['title'],body[i].strip())
    if seeds.get(i): out+="\nPlanted bugs caught by this check: %s.\n"%", ".join("`%s`"%x for x in seeds[i] if x not in MISSED)
    out+="\n"
out+=TAIL
open('/verif/DESIGN.md','w').write(out)
print(len(out))
