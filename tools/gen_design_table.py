import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
if 'TABLE\n' in s:
    s=s[:s.index('TABLE\n')]+'<!-- table -->\n'
head=s[:s.index('<!-- table -->')]
rows=['<!-- table -->','| bug | property | needs |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=m['needs'].replace('\n',' ').replace('|','/')
    rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(d)),m['property'],n))
open(p,'w').write(head+'\n'.join(rows)+'\n')
