#!/usr/bin/env python3
# mkref.py DIR OUT name=refName ...   (name: Type.Method or Func) ; DIR under /repo/src
import sys,re,os,glob
d,out=sys.argv[1:3]
src={}
imports={}
def nodbg(s):
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
    o='';i=0
    for m in re.finditer(r'(?m)^[ \t]*(debug|Glob\.PrintDebug)\(',s):
        if m.start()<i: continue
        o+=s[i:m.start()]
        dp=0;j=m.end()-1
        while True:
            c=s[j]
            if c=='"':
                j+=1
                while s[j]!='"':
                    if s[j]=='\\': j+=1
                    j+=1
            elif c=='`':
                j=s.index('`',j+1)
            elif c=='(':dp+=1
            elif c==')':
                dp-=1
                if dp==0:break
            j+=1
        i=j+1
        while i<len(s) and s[i] in ' \t': i+=1
        if i<len(s) and s[i]=='\n': i+=1
    return o+s[i:]
funcs={}
pkg=None
for f in sorted(glob.glob('/repo/src/'+d+'/*.go')):
    if f.endswith('_test.go'): continue
    s=open(f).read()
    s="\n"+s
    i=s.index("\npackage ")
    pkg=re.match(r'\npackage (\w+)',s[i:]).group(1)
    s=s[i:]
    for m in re.finditer(r'(?m)^\s*(?:(\w+|\.)\s+)?"([^"]+)"\s*$',s[:s.find('\nfunc ') if '\nfunc ' in s else len(s)]):
        imports[m.group(1) or m.group(2).split('/')[-1]]=(m.group(1),m.group(2))
    s=nodbg(s)
    for m in re.finditer(r'(?ms)^func (?:\((\w+ )?(\*?\w+)((?:\[[^\]]*\])?)\) )?(\w+)([^\n]*(?<!\})\n.*?)^}\n',s):
        rv,rt,tp,nm,rest=m.groups()
        key=(rt.lstrip('*')+'.' if rt else '')+nm
        if tp:
            gen='['+', '.join(x.strip()+' '+('Ordered' if rt.lstrip('*') in('Set','Node') else 'Comparable' if rt.lstrip('*')=='ComparableList' else 'StrictlyOrdered' if 'Strictly' in rt else 'any') for x in tp[1:-1].split(','))+']'
            rest=gen+rest; rt=rt+tp
        funcs[key]=(rv.strip() if rv else '_',rt,nm,rest,m.group(0))
    for m in re.finditer(r'(?m)^func (?:\((\w+ )?(\*?\w+(?:\[[^\]]*\])?)\) )?(\w+)([^\n]*\{[^\n]*\})\n',s):
        rv,rt,nm,rest=m.groups()
        key=(rt.lstrip('*')+'.' if rt else '')+nm
        funcs[key]=(rv.strip() if rv else '_',rt,nm,rest[:-1],None)
body=''
args=sys.argv[3:]
pre=None
if args and args[0]=='-p': pre=args[1]; args=args[2:]
for a in args:
    k,_,r=a.partition('=')
    if pre: r='ref'+pre+'_'+k.replace('.','_')
    if not r: r='ref'+k.split('.')[-1][0].upper()+k.split('.')[-1][1:]
    if k not in funcs:
        print('NOT FOUND',k,file=sys.stderr); continue
    rv,rt,nm,rest,_=funcs[k]
    if rt:
        i=rest.index('(')
        tp=rest[:i]
        rest=tp+'('+rv+' '+rt+(', ' if not re.match(r'\(\s*\)',rest[i:]) else '')+rest[i+1:]
    t='func '+r+rest+'}\n'
    t=re.sub(r'(?m)^\s*//.*\n','',t)
    t=re.sub(r'\n\s*\n+','\n',t)
    body+='\n'+t
used=[n for n in imports if n!='.' and re.search(r'\b'+re.escape(n)+r'\.',body)]
hdr='//ref: %s\npackage %s\n\nimport (\n'%(d,pkg)
for n in sorted(used,key=lambda n:imports[n][1]):
    al,p=imports[n]
    hdr+='\t'+(al+' ' if al else '')+'"%s"\n'%p
hdr+=')\n'
if not used: hdr='//ref: %s\npackage %s\n'%(d,pkg)
open(out,'w').write(hdr+body)
os.system("gofmt -w "+out); t=open(out).read(); open(out,"w").write(t.replace("// ref: ","//ref: ",1))
