import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.isdir(f'{V}/harness/{i.lower()}') and i not in NA:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"symbolic execution of the real Go code (go/ssa, regenerated from /repo on every run) with SMT (z3) deciding every assertion for all values within the stated bounds; counterexamples are replayed natively",
          "level":"model_checking",
          "level_note":"bounded: all values of the symbolic inputs within the bounds listed in the evidence file (grid sizes, numbers of fields/steps); floating-point arithmetic is treated as real arithmetic with a tolerance",
          "evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"engine/: symbolic executor; harness/: one package per property, overlaid on /repo's module at run time; known-findings.json: findings and fixed defects"}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
