#!/usr/bin/env python3
"""Apply each behaviour-preserving edit to /repo, run the repository's tests and every quick check (or --props=C01,C02), undo."""
import os,sys,subprocess,json,re,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from refactors import R
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
av=[a for a in sys.argv[1:] if not a.startswith('--')]
ps=[a[8:].split(',') for a in sys.argv if a.startswith('--props=')]
props=ps[0] if ps else [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
import shutil
W='/tmp/c8s-rf'; os.makedirs(W,exist_ok=True)
subprocess.run(f'rm -rf {W}/verif; mkdir {W}/verif; cp -a {ROOT}/check.py {ROOT}/engine {ROOT}/lib {ROOT}/spec {ROOT}/roundtrip {ROOT}/known-findings.txt {ROOT}/build {W}/verif/; [ -e {W}/repo ] || cp -a /repo {W}/repo; mkdir -p {W}/verif/evidence',shell=True)
REPO=W+'/repo'; VER=W+'/verif'
subprocess.run(f'git -C {REPO} fetch -q /repo HEAD && git -C {REPO} reset -q --hard FETCH_HEAD',shell=True)
env=dict(os.environ,C8S_REPO=REPO,HOME='/root',CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
for n,eds in R.items():
    if av and not any(a in n for a in av): continue
    try:
        ok=True
        for f,o,w in eds:
            p=f'{REPO}/src/{f}'; t=open(p).read()
            if o not in t: print(n,'EDIT NOT FOUND',repr(o[:80])); ok=False; break
            open(p,'w').write(t.replace(o,w,1))
        if not ok: continue
        r=subprocess.run('cargo build --offline',shell=True,capture_output=True,text=True,cwd=REPO,env=env)
        if r.returncode: print(n,'BUILD FAIL',(r.stdout+r.stderr)[-1500:]); continue
        r=subprocess.run('cargo test --offline',shell=True,capture_output=True,text=True,cwd=REPO,env=env)
        if r.returncode: print(n,'TESTS FAIL',re.findall(r'test (.*) \.\.\. FAILED',r.stdout))
        bad=[]; t0=time.time(); und=[]
        for p in props:
            r=subprocess.run(['python3','check.py',p,'quick'],cwd=VER,env=env,capture_output=True,text=True)
            m=re.search(r'(\d+) undecided(.*?), \d+ z3',r.stdout)
            if m and m[1]!='0': und.append(p+':'+m[1]+m[2][:60])
            if r.returncode: bad.append((p,r.returncode)); open(f'/tmp/rf-{n}-{p}.log','w').write(r.stdout+r.stderr)
        print(n,'QUIET' if not bad else 'NOISY %s'%bad,'undecided %s'%und if und else '',f'{time.time()-t0:.0f}s',flush=True)
    finally:
        subprocess.run(['git','-C',REPO,'checkout','--','.'])
