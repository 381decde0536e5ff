import json,glob,re,collections,sys,shutil
P=sys.argv[1]
cl=collections.Counter(); ex={}
for f in glob.glob('/verif/evidence/replay/%s-*.json'%P):
    j=json.load(open(f)); m=j['msg']
    w=re.search(r'\): (.*)$',m)
    w=w.group(1) if w else m
    k=j['key'][:4]+re.sub(r'-\d','',w)[:60]
    cl[k]+=1
    if k not in ex or len(m)<len(ex[k]): ex[k]=m
for k,n in cl.most_common(8): print(n,k,'\n     ',ex[k][:600])
shutil.rmtree('/verif/evidence/replay',ignore_errors=True)
