import json,sys
p='/verif/checks.json'; d=json.load(open(p))
d.update(json.loads(sys.argv[1])); json.dump(d,open(p,'w'),indent=1,sort_keys=True); open(p,'a').write('\n')
