import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','stable','tests'):
        if k in d: 
            v=d[k]; return set(v) if isinstance(v,list) else {x for x,y in v.items() if y in ('passed',True,'pass')}
    return set(d)
print(len(passed(b)), len(passed(o)), sorted(passed(b)-passed(o)))
