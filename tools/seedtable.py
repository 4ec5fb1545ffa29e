#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
# tools/seeded.json (id -> [checks that report it, what had to be added]).
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res=json.load(open(here+'/tools/seeded.json'))
out=['| bug | reported by | missed at first: what was added |','|---|---|---|']
for f in sorted(glob.glob(here+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f)); r=res.get(i,[m['property'],''])
    out.append('| %s: %s | %s | %s |'%(i,m['what_it_breaks'].rstrip('.').replace('|','/'),r[0],r[1]))
p=here+'/DESIGN.md'; s=open(p).read(); k='<!-- seeded table -->'
a=s.index(k)+len(k); e=s.find('<!-- end -->')
tail=s[e:] if e>=0 else '<!-- end -->\n'
open(p,'w').write(s[:a]+'\n'+'\n'.join(out)+'\n'+tail)
