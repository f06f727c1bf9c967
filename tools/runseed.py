#!/usr/bin/env python3
"""Apply each seeded patch to /repo, run its property's quick check (or all with --all), undo. runseed.py [--all] [--tier=T] [substr...]"""
import os,sys,subprocess,json,glob,time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
av=[a for a in sys.argv[1:] if not a.startswith('--')]; ALL='--all' in sys.argv
tier=[a[7:] for a in sys.argv if a.startswith('--tier=')] or ['quick']
props=[json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
for d in sorted(glob.glob(f'{ROOT}/seeded/*/')):
    n=os.path.basename(d[:-1])
    if av and not any(a in n for a in av): continue
    m=json.load(open(d+'meta.json'))
    r=subprocess.run(['git','-C','/repo','apply',d+'patch.diff'],capture_output=True,text=True)
    if r.returncode: print(n,'DOES NOT APPLY',r.stderr); continue
    try:
        for p in (props if ALL else [m['property']]):
            t=time.time()
            r=subprocess.run(['python3','check.py',p,tier[0]],cwd=ROOT,capture_output=True,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(n,p,'exit',r.returncode,f'{time.time()-t:.0f}s',v[:1],'' if r.returncode in(0,1) else (r.stdout+r.stderr)[-400:],flush=True)
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'])
