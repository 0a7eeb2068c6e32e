# genlist.py DIR [files...] -> names usable by mkref
import sys,re,glob,os
d=sys.argv[1]; fs=sys.argv[2:] or sorted(glob.glob('/repo/src/'+d+'/*.go'))
out=[]
for f in fs:
    if not f.startswith('/'): f='/repo/src/'+d+'/'+f
    if f.endswith('_test.go') or f.endswith('tptp_parse.go'): continue
    for m in re.finditer(r'(?m)^func (?:\((?:\w+ )?\*?(\w+)(?:\[[^\]]*\])?\) )?(\w+)',open(f).read()):
        n=(m.group(1)+'.' if m.group(1) else '')+m.group(2)
        if m.group(2) in('init',) : continue
        out.append(n)
print(' '.join(out))
