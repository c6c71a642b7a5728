# Applies each behaviour-preserving rewrite of refactors_*.py to a scratch copy
# and shows how the analyzer judges it:
#   python3 devel/refactors.py [-b ANALYZER] [id...]
import sys,os,subprocess,json,shutil,glob,importlib.util
from concurrent.futures import ThreadPoolExecutor
from threading import local
here=os.path.dirname(os.path.abspath(__file__))
R=[]
for f in sorted(glob.glob(here+'/refactors_*.py')):
    sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); R+=[(x[0],x[1],getattr(m,'STRIP',False)) for x in m.R]
args=sys.argv[1:]; an='/tmp/w/an'; build=False
if args and args[0]=='-b': an=args[1]; args=args[2:]
if args and args[0]=='-c': build=True; args=args[1:]
import queue
Q=queue.Queue()
for k in range(7):
    d=f'/tmp/w/rf{os.getpid()}_{k}'
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo',d,symlinks=True); Q.put(d)
def one(x):
    i,es,strip=x
    d=Q.get()
    try:
        for f,a,b in es:
            t=open(f'{d}/{f}').read()
            if strip and not f.startswith('cmd/'): t='\n'.join(l for l in t.split('\n') if l.strip() and not (l.strip().startswith('//') and not l.startswith('//go:')))+'\n'
            if t.count(a)!=1: return i,'EDIT %d %s'%(t.count(a),f)
            open(f'{d}/{f}','w').write(t.replace(a,b))
        if build:
            p=subprocess.run('. /opt/vp/env.sh; gofmt -l $(git diff --name-only); go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed s#^#./#) && go test -vet=off ./... 2>&1 | grep -v "^ok\\|no test files"',shell=True,cwd=d,capture_output=True,text=True)
            return i,(p.stdout+p.stderr)[-600:]
        p=subprocess.run([an,'diff',d],capture_output=True,text=True,timeout=600)
        return i,'\n'.join(l[:400] for l in p.stdout.split('\n') if l and not l.startswith('one-sided') and not l.startswith('map['))+p.stderr[-500:]
    finally:
        subprocess.run('git checkout -q .',shell=True,cwd=d); Q.put(d)
todo=[x for x in R if not args or x[0] in args]
tot={}
with ThreadPoolExecutor(7) as ex:
    for i,o in ex.map(one,todo):
        st='FALSE' if 'differs ' in o else 'undecided' if o.strip() else 'quiet'
        tot[st]=tot.get(st,0)+1
        if o.strip(): print(st,i,'\n   ',o.replace('\n','\n    '),flush=True)
print(tot)
for k in range(7): shutil.rmtree(f'/tmp/w/rf{os.getpid()}_{k}')
