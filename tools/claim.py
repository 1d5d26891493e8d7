#!/usr/bin/env python3
"""tools/claim.py ID "technique" "text (short)" <<< "design text" : add or replace a claim, regenerate"""
import sys,re,pprint,subprocess,importlib.util,os
here=os.path.dirname(os.path.abspath(__file__))
spec=importlib.util.spec_from_file_location("c",here+"/claims.py"); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
i,t,s=sys.argv[1:4]
m.CLAIMS[i]=(t,s); m.DESIGN[i]=sys.stdin.read().strip()
m.NA.pop(i,None)
def dump(n,d): return n+"="+pprint.pformat(d,width=400,sort_dicts=True)+"\n"
open(here+"/claims.py","w").write("".join(dump(n,getattr(m,n)) for n in ["CLAIMS","NA","DESIGN","CAUGHT"]))
subprocess.check_call(["python3",here+"/mkmanifest.py"])
