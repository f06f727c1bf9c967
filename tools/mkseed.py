#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/bugs.py, keeping only changes confirmed in a scratch copy of /repo.
   mkseed.py [id-substring ...]"""
import os,sys,subprocess,json,shutil,re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT='/tmp/c8s-seed-wt'
env=dict(os.environ,HOME='/root',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),capture_output=True,text=True,**k)
if not os.path.exists(WT): sh(f'cp -a /repo {WT}')
def build(): 
    r=sh('cargo build --offline 2>&1 | tail -30',cwd=WT,env=env); return r
HEADER='#!/bin/bash\nset -u\nC8S="$PWD/target/debug/c8s"\nD=$(mktemp -d)\ntrap \'rm -rf "$D"\' EXIT\ncd "$D"\n'
for b in BUGS:
    if len(sys.argv)>1 and not any(a in b['id'] for a in sys.argv[1:]): continue
    sh('git checkout -q -- . && git clean -fdq src',cwd=WT)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=WT)
    d=f'{ROOT}/seeded/{b["id"]}'
    sd='/tmp/c8s-seed-demo'; shutil.rmtree(sd,ignore_errors=True); os.makedirs(sd)
    open(f'{sd}/demo.sh','w').write(b.get('header',HEADER)+b['demo'].strip('\n')+'\n')
    for n,t in b.get('extra',{}).items(): open(f'{sd}/{n}','w').write(t)
    build()
    r0=sh(f'bash {sd}/demo.sh',cwd=WT,env=env)
    ok=True
    for f,o,n in b['edits']:
        p=f'{WT}/src/{f}'; t=open(p).read()
        if t.count(o)<1: print(b['id'],'EDIT NOT FOUND',o); ok=False;break
        open(p,'w').write(t.replace(o,n,1))
    if not ok: continue
    diff=sh('git diff',cwd=WT).stdout
    r=sh('cargo build --offline 2>&1',cwd=WT,env=env)
    if r.returncode or 'error' in r.stdout.lower() and 'could not compile' in r.stdout: print(b['id'],'BUILD FAIL',r.stdout[-1500:]); continue
    r1=sh(f'timeout 100 bash {sd}/demo.sh',cwd=WT,env=env)
    t=sh('cargo test --offline --no-fail-fast 2>&1',cwd=WT,env=env)
    bad=re.findall(r'^test (.+) \.\.\. FAILED',t.stdout,re.M)
    good=len(re.findall(r'^test (.+) \.\.\. ok',t.stdout,re.M))
    verdict='KEEP' if r0.returncode==0 and r1.returncode!=0 and not bad and good>=92 else 'DROP'
    print(b['id'],b['property'],verdict,f'clean={r0.returncode} patched={r1.returncode} tests={good} failed={bad}',(r0.stdout+r0.stderr)[-300:] if r0.returncode else '')
    if verdict=='KEEP':
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(f'{d}/patch.diff','w').write(diff)
        for x in os.listdir(sd): shutil.copy(f'{sd}/{x}',f'{d}/{x}')
        os.chmod(f'{d}/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{d}/meta.json','w'),indent=1)
sh('git checkout -q -- .',cwd=WT)
