import json
C={}
def case(p,fn,bounds,**k):
    C.setdefault(p,dict(quick_s=150,thorough_s=700,assumptions=[],outside=[],cases=[]))['cases'].append(dict(fn=fn,bounds=bounds,**k))
exec(open('/verif/tools/cases_def.py').read())
json.dump(C,open('/verif/harness/cases.json','w'),indent=1); open('/verif/harness/cases.json','a').write('\n')
