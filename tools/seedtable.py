import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); i=os.path.basename(d[:-1])
    rows.append(f"| {i} | {m['needs']} | {m['property']} |")
s=open('/verif/DESIGN.md').read()
a,b=s.split("<!-- seeds -->\n")[0],None
t="| change | manifests only with | caught by |\n|---|---|---|\n"+"\n".join(rows)+"\n"
open('/verif/DESIGN.md','w').write(a+"<!-- seeds -->\n"+t)
