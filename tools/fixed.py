#!/usr/bin/env python3
# fixed.py PROP[,PROP] COMMIT SIG TEXT : append a "fixed" entry to known_findings.jsonl
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known_findings.jsonl')
props,commit,sig,text=sys.argv[1:5]
pr=props.split(',')[0]
open(p,'a').write(json.dumps({"property":pr,"status":"fixed","commit":commit,"sig":sig,"what":"fixed: property=%s %s %s"%(props,commit,text)})+"\n")
