#!/usr/bin/env python3
# dbg.py FILE FILTER KEYSUBSTR : run a mutation of FILE that contains FILTER with full debug of the comparison KEYSUBSTR
import sys,subprocess,os
muts=eval('['+open(sys.argv[1]).read()+']')
m=[m for m in muts if sys.argv[2] in m[0]+m[2]+m[3]][0]
d='/tmp/mrp/dbg'
subprocess.run('mkdir -p %s && rsync -a --delete --exclude=_build --exclude=.git /repo/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cp -a /repo/src %s/)'%((d,)*5),shell=True)
f,props,old,new=m[:4]; occ=m[4] if len(m)>4 else 0
p=d+'/src/'+f.lstrip('='); s=open(p).read(); parts=s.split(old)
open(p,'w').write(old.join(parts[:occ+1])+new+old.join(parts[occ+1:]))
subprocess.run(['/tmp/chk','-property',props.split(',')[0],'-root','/tmp/ev'],env=dict(os.environ,GOELAND_REPO=d,REF_DEBUG='2',REF_ONLY=sys.argv[3]))
