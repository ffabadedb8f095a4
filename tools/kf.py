#!/usr/bin/env python3
"""kf.py PROP HARNESS COMMIT TEXT: records a repaired defect in known_findings.json."""
import json,sys
p,h,c,t=sys.argv[1:]
k=json.load(open('/verif/known_findings.json'))
k.append(dict(property=p,status='fixed',harness=h,kind='',msg='',text=t,commit=c,line=f'fixed: property={p} {c} {t}'))
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
