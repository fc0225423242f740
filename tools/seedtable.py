#!/usr/bin/env python3
# prints the table of planted bugs for DESIGN.md from seeded/*/meta.json; CAUGHT names misses and what was strengthened
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N=json.load(open(V+'/tools/seednotes.json'))
print('| planted bug | property | needs | caught |\n|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    print(f"| {i} | {m['property']} | {m['needs']} | {N.get(i,'yes')} |")
