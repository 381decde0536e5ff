import json,sys
p='/verif/checks.json'; d=json.load(open(p))
for a in sys.argv[1:]:
    k,_,v=a.partition('=')
    d[k]=json.loads(v) if v else d.get(k,{})
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
