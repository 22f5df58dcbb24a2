import json,sys
d=json.load(open(sys.argv[1])); print(d['what']); e=d['data']
print(json.dumps(e)[:int(sys.argv[2]) if len(sys.argv)>2 else 1500])
