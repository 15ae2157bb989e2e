#!/usr/bin/env python3
# checks that every claimed property has a paragraph in DESIGN.md and lists the planted bugs
import json,glob,re
d=open('/verif/DESIGN.md').read()
m=json.load(open('/verif/MANIFEST.json'))
for c in m['checks']:
    if c['property'] not in d and not any(c['property'] in x for x in re.findall(r'C\d\d/C\d\d',d)): print('no design for',c['property'])
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j=json.load(open(f)); rows.append('* `%s` → %s: %s (needs: %s).'%(f.split('/')[-2],j['property'],j['what_it_breaks'],j['needs']))
a='<!--bugs-->'; 
i=d.find('## Planted bugs'); d=d[:i]+'## Planted bugs (seeded/) and what catches them\n\nEach one is caught by the check of its property (`tools/trybugs.sh`).\n\n'+'\n'.join(rows)+'\n'
open('/verif/DESIGN.md','w').write(d)
