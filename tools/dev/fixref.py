import sys,subprocess,re
prop=sys.argv[1]
for _ in range(10):
    subprocess.run('bash /tmp/b.sh',shell=True)
    r=subprocess.run(['/tmp/chk','-property',prop,'-root','/tmp/ev'],capture_output=True,text=True)
    errs=re.findall(r'zz_ref_(\w+)\.go:(\d+):(\d+): (.*)',r.stderr+r.stdout)
    if not errs: break
    ch=False
    for f,l,c,m in errs:
        p='/verif/checker/ref/%s.ref'%f
        L=open(p).read().split('\n'); i=int(l)-1; c=int(c)-1
        mm=re.match(r'declared and not used: (\w+)',m)
        if mm:
            x=mm.group(1); s=L[i]
            s=s[:c]+'_'+s[c+len(x):]
            if not re.search(r'\w+(, \w+)* :=',s.replace('_ :=','').replace('_, ','',1) if False else re.sub(r'\b_\b','',s)): s=s.replace(':=','=',1)
            L[i]=s; ch=True
        elif re.search(r'"([^"]+)" imported and not used',m):
            L[i]=''; ch=True
        else: print(f,l,m)
        open(p,'w').write('\n'.join(L))
    if not ch: break
