import json,glob,os,collections
by=collections.OrderedDict()
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); by.setdefault(m['property'],[]).append(os.path.basename(d))
t="| check | planted bugs it catches |\n|---|---|\n"+"\n".join("| %s | %s |"%(p,", ".join(by[p])) for p in sorted(by))
p='/verif/DESIGN.md'; s=open(p).read()
if 'ROUND1' in s: s=s.replace('ROUND1',"<!-- table -->\n"+t+"\n<!-- end -->")
else:
    a=s.index('<!-- table -->'); b=s.index('<!-- end -->'); s=s[:a]+"<!-- table -->\n"+t+"\n"+s[b:]
open(p,'w').write(s)
