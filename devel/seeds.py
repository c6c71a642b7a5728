# Builds /verif/seeded/<id>/ from the descriptions in seeds_*.py:
#   python3 devel/seeds.py build|tests|demo [id...]
import json,os,subprocess,sys,shutil,glob,importlib.util
SEEDS=[]
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__),'seeds_*.py'))):
    sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); SEEDS+=m.SEEDS
DEMO='''#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$root/PKG/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s FLAGS -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./PKG
'''
def sh(c,cwd=None,t=900):
    e=dict(os.environ,GOFLAGS='-mod=mod')
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t,env=e)
def copy(i):
    d=f'/tmp/w/seed/{i}'
    if os.path.exists(d): shutil.rmtree(d)
    sh(f'cp -a /repo {d}')
    return d
def build(s):
    d=copy(s['id']); out=f"/verif/seeded/{s['id']}"
    for f,a,b in s['edits']:
        p=f'{d}/{f}'; t=open(p).read()
        if t.count(a)!=1: print(s['id'],'EDIT matches',t.count(a),f,repr(a)); return False
        open(p,'w').write(t.replace(a,b))
    r=sh('. /opt/vp/env.sh; gofmt -l $(git diff --name-only | grep go$); go build ./... ',d)
    if r.returncode or r.stdout.strip(): print(s['id'],'BUILD',r.stdout,r.stderr[:1500]); return False
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(sh('git diff',d).stdout)
    open(out+'/demo_test.go','w').write(s['demo'].lstrip())
    open(out+'/demo.sh','w').write(DEMO.replace('PKG',s['pkg'] or '.').replace('FLAGS',s.get('flags','')).replace('/./','/').replace('././','./'))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
    a=sh(f'bash {out}/demo.sh','/repo'); b=sh(f'bash {out}/demo.sh',d)
    ok=a.returncode==0 and b.returncode!=0
    print(s['id'],'demo','ok' if ok else 'WRONG','clean',a.returncode,'patched',b.returncode, '' if ok else (a.stdout+a.stderr)[-800:]+'\n-----\n'+(b.stdout+b.stderr)[-800:])
    return ok
def tests(s):
    d=f"/tmp/w/seed/{s['id']}"
    r=sh('. /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1 | grep -v "^ok\\|no test files" | head -40; go test -vet=off -count=1 -run "^TestResults$" ./acc -stress | tail -3;  go test -vet=off -count=1 ./internal/results -stress | tail -3',d)
    print(s['id'],'tests',r.stdout[-1500:].replace('\n','\n   '),flush=True)
if __name__=='__main__':
    mode=sys.argv[1]; ids=sys.argv[2:]
    ss=[s for s in SEEDS if not ids or s['id'] in ids]
    if mode=='build':
        for s in ss: build(s)
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex: list(ex.map(tests,ss))
