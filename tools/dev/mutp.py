#!/usr/bin/env python3
# mutp.py FILE : FILE holds python tuples (file, props, old, new[, occ]); prefix file with '=' for behaviour-preserving edits
import sys,subprocess,os,shutil,queue
from concurrent.futures import ThreadPoolExecutor
muts=eval('['+open(sys.argv[1]).read()+']')
only=sys.argv[2] if len(sys.argv)>2 else None
N=6
q=queue.Queue()
for i in range(N):
    d=os.environ.get('MRP','/tmp/mrp')+'/%d'%i
    subprocess.run('mkdir -p %s && rsync -a --delete --exclude=_build --exclude=.git /repo/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cp -a /repo/src %s/)'%((d,)*5),shell=True)
    q.put(d)
def run(m):
    f,props,old,new=m[:4]; occ=m[4] if len(m)>4 else 0
    eq=f.startswith('='); f=f.lstrip('=')
    if only and only not in f+old+new: return ''
    d=q.get()
    p=d+'/src/'+f
    s=open(p).read()
    out=''
    try:
        parts=s.split(old)
        if len(parts)-1<=occ: return 'NOT FOUND %s in %s'%(old[:80],f)
        open(p,'w').write(old.join(parts[:occ+1])+new+old.join(parts[occ+1:]))
        r=subprocess.run('. /opt/vp/env.sh; cd %s/src && go build -o /dev/null . 2>&1 | head -5'%d,shell=True,capture_output=True,text=True)
        if r.stdout.strip(): out+='BUILD '+r.stdout.strip()[:300]+'\n'
        env=dict(os.environ,GOELAND_REPO=d)
        ev=os.environ.get('MRP','/tmp/mrp')+'/ev'+os.path.basename(d)
        for pr in props.split(','):
            try: r=subprocess.run([__import__('os').environ.get('CHK',os.environ.get('CHK','/tmp/chk')),'-property',pr,'-root',ev],env=env,capture_output=True,text=True,timeout=400)
            except subprocess.TimeoutExpired: out+='TIMEOUT '; continue
            o=r.stdout.strip().split('\n')
            bad=(r.returncode==1)
            tag=('FALSE-ALARM' if bad else 'quiet') if eq else ('CAUGHT' if bad else 'MISSED' if r.returncode==0 else 'RC%d %s'%(r.returncode,r.stderr[:200]))
            out+='%s %s | %s: %s -> %s\n'%(tag,pr,f.split('/')[-1],old[:60].replace('\n','⏎'),new[:60].replace('\n','⏎'))
            if bad and (eq or '-v' in sys.argv): out+='    '+'\n    '.join(x[:600] for x in o[:12])+'\n'
            elif bad: out+='      '+o[0][:150]+'\n'
    finally:
        open(p,'w').write(s); q.put(d)
    return out.rstrip()
with ThreadPoolExecutor(N) as ex:
    for o in ex.map(run,muts):
        if o: print(o,flush=True)
