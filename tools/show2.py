import json,sys,re
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1])); print(d['total'])
seen={}
for f in d['failures']:
    k=re.sub(r"[0-9]+(\.[0-9]+)?","N",f['what'])[:70]
    seen.setdefault(k,[]).append(f)
for k,v in seen.items(): print(len(v),'|',v[0]['key'][:200],'|',v[0]['what'][:int(sys.argv[2]) if len(sys.argv)>2 else 250])
