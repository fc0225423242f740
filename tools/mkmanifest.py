#!/usr/bin/env python3
# writes MANIFEST.json; a property is claimed when the harness has jobs for it
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NOTE=json.load(open(V+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NOTE['na']:
        na.append({"property":i,"reason":NOTE['na'][i]}); continue
    out=subprocess.run([V+'/target/h/debug/kv','jobs',i],capture_output=True,text=True).stdout.strip()
    if not out:
        na.append({"property":i,"reason":"the monitor for this property is not built yet"}); continue
    t,l,n=NOTE['checks'].get(i,["runtime monitor over randomized workloads","exploration","holds on the executions observed in this run; trusts the harness model/oracle"])
    checks.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"./run.sh {i} thorough","technique":t,"level":l,"level_note":n})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
   "hooks":{"guard":"--cfg kv_md_state","enable":"run.sh P32 builds a second copy of the module with RUSTFLAGS='--cfg kv_md_state' into /verif/target/so_state (build.sh with KV_STATE=1); every other check uses the plain build","source_commits":["9e14bcd"]},
   "notes":"Monitors drive the built PKCS#11 module through its public function table; faults and crash points are injected by an LD_PRELOAD shim. The only hook lets digest states be saved with OpenSSL 3.0 (P32)."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[x['property'] for x in na],'not claimed')
