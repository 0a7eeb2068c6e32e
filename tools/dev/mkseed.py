#!/usr/bin/env python3
# mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS [occ] [--more FILE OLD NEW]: makes /verif/seeded/ID/patch.diff + meta.json
import sys,subprocess,os,json
a=sys.argv[1:]
more=[]
while '--more' in a:
    i=a.index('--more'); more.append(a[i+1:i+4]); del a[i:i+4]
id,prop,f,old,new,needs,br=a[:7]
occ=int(a[7]) if len(a)>7 else 0
d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
ch=[(f,old,new,occ)]+[(x[0],x[1],x[2],0) for x in more]
saved={}
try:
    for f,old,new,occ in ch:
        p='/tmp/sr/'+f; s=open(p).read(); saved.setdefault(p,s)
        parts=s.split(old)
        assert len(parts)>occ+1,("NOT FOUND",f,old)
        open(p,'w').write(old.join(parts[:occ+1])+new+old.join(parts[occ+1:]))
    patch=subprocess.run(['git','-C','/tmp/sr','diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(patch)
finally:
    for p,s in saved.items(): open(p,'w').write(s)
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)
print(patch)
