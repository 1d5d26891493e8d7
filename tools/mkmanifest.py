#!/usr/bin/env python3
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
exec(open(root+'/tools/claims.py').read())
hook=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^Verification hook']).decode().split()
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        c=CLAIMS[i]
        checks.append({"property":i,"level":"model_checking","technique":c[0],"level_note":c[1],
          "quick_cmd":f"VERIF_TIER=quick ./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}"})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"--cfg libopenraw_verif","enable":"RUSTFLAGS=\"--cfg libopenraw_verif\" cargo build","source_commits":hook[::-1]},
 "checks":checks,"not_applicable":na}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))

# DESIGN.md
import glob
d=open(root+'/tools/DESIGN.in.md').read()
out=[]
for p in props:
    i=p['id']
    out.append(f"### {i} — {p['title']}\n")
    out.append(DESIGN.get(i,"(check under construction)").strip()+"\n")
d=d.replace('@@PROPS@@','\n'.join(out))
rows=['| change | property | needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {CAUGHT.get(n,'')} |")
d=d.replace('@@SEEDS@@','\n'.join(rows))
open(root+'/DESIGN.md','w').write(d)
