# fills the table of planted bugs in DESIGN.md from the output of a run over the seeds
import json,os,re,sys
rows=[]
out={}
cur=None
for l in open(sys.argv[1]):
    m=re.match(r'(C\d\d-\S+) (\d) ?(.*)',l)
    if m: cur=m[1]; out[cur]=[m[2],m[3]]
    elif cur: out[cur][1]+=' '+l.strip()
for k in sorted(out):
    d=json.load(open('/verif/seeded/%s/meta.json'%k))
    rules=sorted(set(re.findall(r'\[([a-z-]+)\]',out[k][1])))
    rows.append('| %s | %s | %s | %s |'%(k,d['what_it_breaks'],d['needs'],('`%s check %s`: '%('./check.sh'[:0]+'an',d['property'])+', '.join(rules)) if out[k][0]=='1' else 'missed'))
t='| seed | breaks | needs | caught by |\n|---|---|---|---|\n'+'\n'.join(rows)
t=t.replace('`an check ','`').replace('`: ',': ').replace('| `','| ')
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'(@SEEDS@|\| seed \| breaks.*?\n\n)',lambda m:t+('\n\n' if m[0]!='@SEEDS@' else ''),s,flags=re.S)
open(p,'w').write(s)
