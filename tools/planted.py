# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[1]
    c=lambda t:' '.join(str(t).split()).replace('|','/')
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],c(m['what_it_breaks']),c(m['needs'])))
t='\n### Planted changes\n\n`seeded/` holds %d; the quick check of the property named catches each of them\n(those of C28 and C29 need `render/halo`, which only these checks build).\n\n| id | caught by | what it breaks | what it needs |\n|---|---|---|---|\n'%len(rows)+'\n'.join(rows)+'\n'
s=open('DESIGN.md').read()
a='<!-- planted -->'; b='<!-- /planted -->'
if a not in s: s=s.rstrip()+'\n\n'+a+'\n'+b+'\n'
s=s[:s.index(a)+len(a)]+t+s[s.index(b):]
open('DESIGN.md','w').write(s)
