import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1]));print(d['total'])
for f in d['failures']: print(f['key'],'|',f['what'][:int(sys.argv[2]) if len(sys.argv)>2 else 250])
