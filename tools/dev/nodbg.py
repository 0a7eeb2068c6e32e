import sys,re
# print Go files without licence, comments and debug calls
for f in sys.argv[1:]:
    s=open(f).read()
    i=s.find('\npackage ')
    if i>=0: s=s[i:]
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
    s=re.sub(r'(?m)^\s*//.*\n','',s)
    out='';i=0
    for m in list(re.finditer(r'(?m)^[ \t]*(debug|Glob\.PrintDebug)\(',s)):
        if m.start()<i: continue
        out+=s[i:m.start()]
        d=0;j=m.end()-1
        while True:
            c=s[j]
            if c=='"':
                j+=1
                while s[j]!='"':
                    if s[j]=='\\': j+=1
                    j+=1
            elif c=='(':d+=1
            elif c==')':
                d-=1
                if d==0:break
            j+=1
        i=j+1
        while i<len(s) and s[i] in ' \t': i+=1
        if i<len(s) and s[i]=='\n': i+=1
    out+=s[i:]
    out=re.sub(r'\n\s*\n+','\n',out)
    print('=====',f);print(out)
