#!/usr/bin/env python3
"""Rewrites checks.json with one harness per line."""
import json,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','checks.json')
d=json.load(open(p))
out=[]
for k in sorted(d):
    v=d[k]
    f=[json.dumps(a)+": "+json.dumps(b,ensure_ascii=False) for a,b in v.items() if a!='harness']
    f.append('"harness": [\n  '+',\n  '.join(json.dumps(h,separators=(',',':')) for h in v['harness'])+']')
    out.append(json.dumps(k)+': {'+',\n '.join(f)+'}')
open(p,'w').write('{\n'+',\n'.join(out)+'\n}\n')
