#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/CAUGHT (id: checks that were run and caught it)
import json,os,re
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c={}
for l in open(d+'/tools/caught.txt'):
    if ':' in l: k,v=l.split(':',1); c[k.strip()]=v.strip()
rows=[]
for i in sorted(os.listdir(d+'/seeded')):
    p=d+'/seeded/'+i+'/meta.json'
    if not os.path.exists(p): continue
    m=json.load(open(p)); rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/').replace('\n',' '),c.get(i,m['property'])))
t='<!-- seeds -->\n| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
p=d+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,s,flags=re.S) if '<!-- seeds -->' in s else s+'\n'+t+'\n'
open(p,'w').write(s)
