# addfix.py PROPERTY HASH TEXT: record a repaired defect
import json,sys
p='/verif/known-findings.json'
j=json.load(open(p))
k=next(iter(j)) if isinstance(j,dict) else None
l=j[k] if k else j
l.append({"property":sys.argv[1],"status":"fixed","harness":"","label":"","what":f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
open(p,'w').write(json.dumps(j,indent=1,ensure_ascii=False)+"\n")
