#!/usr/bin/env python3
"""claim.py ID T NOTE: registers a check and rewrites MANIFEST.json."""
import json,sys,os,subprocess
d=os.path.dirname(os.path.abspath(__file__))
p=d+'/checks.json'
c=json.load(open(p))
e={"note":sys.argv[3]}
if sys.argv[2]!='MC': e['t']=sys.argv[2]
if sys.argv[2]=='FE': e['level']='fault_enumeration'
if sys.argv[2]=='SCH': e['level']='exploration'
c[sys.argv[1]]=e
json.dump(dict(sorted(c.items())),open(p,'w'),indent=1)
subprocess.check_call(['python3',d+'/gen_manifest.py'])
