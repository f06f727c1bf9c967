#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of the current /repo
   check.py --replay <file>            run a recorded counterexample against the real binary again
   check.py --setup                    build the framework
"""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
from vlib import *

ASSUME = [
 'the kernel boundary (open/read/write/rename/stat/exit, heap, random bytes, clock) is the engine\'s model of it; memory is never exhausted and freed memory is not reused',
 'keys of the label HashMap hash to a constant, except where a job makes the hashes symbolic (C18)',
 'bitcode: the crate and its dependencies compiled by the installed rustc at opt-level 1 with overflow checks and debug assertions on; rustc and LLVM up to that point are trusted',
 'the reference semantics in spec/spec.c state the property',
]

def known_findings(pid):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) >= 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='): out.append((w[2][4:], w[3].strip()))
    return out

def key_of(runs):
    h = hashlib.sha256()
    for r in runs:
        h.update(repr((r['argv'], r['files'], r['plan'])).encode())
    return h.hexdigest()[:16]

def replay(job, syms, mask, prop, binary, shim, so, scratch):
    """Run the counterexample against the real binary; returns (confirmed, rc, runs, outs)."""
    runs = job.concrete(syms)
    tries = 1
    if any(r.hash for r in job.runs) or any('_clock' in n or '_pid' in n for n in syms): tries = 120
    best = (False, 0, runs, None)
    for t in range(tries):
        outs = [native_run(binary, shim, r, scratch) for r in runs]
        rc, cls = judge(so, prop, outs)
        if rc & mask: return True, rc, runs, outs
        best = (False, rc, runs, outs)
    return best

def show(b, n=300):
    s = repr(b)[1:]; return s if len(s) <= n else s[:n] + '...'

def same(pred, act):
    if pred['kind'] != act['kind'] or (pred['kind'] == 0 and pred['code'] != act['code']): return False
    if pred['kind']: return True
    pf = {bytes.fromhex(f['path']): bytes.fromhex(f['data']) for f in pred['files'] if f['exists']}
    af = {f['path']: f['post'] for f in act['files'] if f['post'] is not None}
    if pf != af: return False
    po = bytes.fromhex(pred['out'])
    if b'system error' in po: return True
    return po == act['out']

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        a, b = Bg(build_engine), Bg(build_spec); a.get(); b.get(); print('framework built'); return 0
    if len(sys.argv) > 1 and sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); bc, so, shim = build_spec(); binary = build_native(d['crate'])
        runs = [dict(argv=[bytes.fromhex(x) for x in r['argv']], files=[(bytes.fromhex(a), bytes.fromhex(b)) for a, b in r['files']], plan=r['plan'], env=r.get('env', {}), times=r.get('times', {})) for r in d['runs']]
        with tempfile.TemporaryDirectory() as sc:
            for t in range(d.get('tries', 1)):
                outs = [native_run(binary, shim, r, sc) for r in runs]; rc, cls = judge(so, d['prop'], outs)
                if rc & d['mask']: break
        for o in outs: print('exit', o['code'], 'kind', o['kind'], 'stdout', show(o['out']), 'stderr', show(o['err']), 'files', {k['path']: k['post'] for k in o['files']})
        print('violated:', describe(rc & d['mask']) if rc & d['mask'] else 'nothing'); return 1 if rc & d['mask'] else 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '-v' in sys.argv
    only = [a[6:] for a in sys.argv if a.startswith('--job=')]
    t0 = time.time()
    import templates
    P = templates.property(pid, tier)
    if only: P.jobs = [j for j in P.jobs if any(o in j.name for o in only)]
    kind = P.crate
    be, bs, bb = Bg(build_engine), Bg(build_spec), Bg(build_bc, kind)
    try: engine = be.get(); specbc, so, shim = bs.get(); bc = bb.get()
    except BuildError as e: print('ERROR building: %s' % e); return 2
    tbuild = time.time() - t0
    bn = Bg(build_native, kind)
    scratch = tempfile.mkdtemp(prefix='c8s-')
    try:
        names = [j.name for j in P.jobs]
        assert len(set(names)) == len(names), 'duplicate job names: %s' % [n for n in names if names.count(n) > 1][:5]
        byname = {j.name: j for j in P.jobs}
        R = run_engine(engine, bc, specbc, P.jobs, P.mask, P.num, P.budget, scratch, kind=kind, verbose=verbose, joblimit=P.joblimit)
        try: binary = bn.get()
        except BuildError as e: print('ERROR building: %s' % e); return 2
        res = list(R['results']); err = R['rc'] != 0
        if err: print('engine reported problems:', R['log'][-1500:])
        confirmed, unconfirmed = [], []
        def handle(vs, final):
            for v in vs:
                j = byname[v['job']]; m = j.mask if j.mask is not None else P.mask
                ok, rc, runs, outs = replay(j, v['syms'], m, j.prop or P.num, binary, shim, so, scratch)
                if ok: confirmed.append((j, v, rc & m, runs, outs))
                elif any('call depth exceeded' in o['note'] for o in v['outs']): print('note: recursion deeper than the engine follows in job %s; the real binary copes' % j.name)
                else: unconfirmed.append((j, v, rc, runs, outs))
                if len(confirmed) >= 3: return
        handle([v for r in res for v in r['viol']], False)
        if unconfirmed and not confirmed:
            # the snapshot taken after start-up may hide state: repeat these jobs from the process entry point
            for j in P.jobs: j.cold = True
            prev = unconfirmed[:]; unconfirmed.clear()
            R2 = run_engine(engine, bc, specbc, P.jobs, P.mask, P.num, P.budget, scratch, kind=kind, joblimit=P.joblimit)
            res = list(R2['results']); err = R2['rc'] != 0; handle([v for r in R2['results'] for v in r['viol']], True)
        # ---- known findings
        kf = known_findings(pid); fresh = []; nk = 0
        for c in confirmed:
            k = key_of(c[3]); hit = [d for kk, d in kf if kk == k]
            if hit: print('KNOWN-FINDING: property=%s %s' % (pid, hit[0])); nk += 1
            else: fresh.append(c)
        # ---- translation check: predicted outcomes of sampled paths against the real binary
        samples = []
        seen = {}
        for r in res:
            for s in r['samples']:
                if any('_hash_' in n or '_clock' in n or '_pid' in n for n in s['syms']): continue
                if seen.get(s['job'], 0) < 1: seen[s['job']] = seen.get(s['job'], 0) + 1; samples.append(s)
        lim = 40 if tier == 'quick' else 400; step = max(1, len(samples) // lim); val = mism = 0; ex = []
        deep = [s for s in samples if getattr(byname[s['job']], 'deep', False)]     # what the encoding leaves out (stack use of the dev build) is watched on every one of these
        for s in deep + [s for s in samples if s not in deep][::step][:lim]:
            j = byname[s['job']]; runs = j.concrete(s['syms']); outs = [native_run(binary, shim, r, scratch) for r in runs]
            okk = all(same(p, a) for p, a in zip(s['outs'], outs)); val += okk
            m = j.mask if j.mask is not None else P.mask
            if not okk:
                rc, _ = judge(so, j.prop or P.num, outs)
                if rc & m: # the real binary breaks the property on this path although the encoding does not
                    hit = [d for kk, d in kf if kk == key_of(runs)]
                    if hit: print('KNOWN-FINDING: property=%s %s' % (pid, hit[0])); nk += 1
                    elif len(fresh) < 3: fresh.append((j, s, rc & m, runs, outs))
                    continue
                mism += 1; print('note: engine prediction differs from the real binary on job %s: %s\n  predicted %s\n  real %s' % (s['job'], show(runs), show(s['outs'], 600), show(outs, 600)))
            if len(ex) < 6: ex.append(dict(job=s['job'], argv=[a.decode('latin1') for a in runs[0]['argv']], files=[[p.decode('latin1'), d.decode('latin1')[:200]] for p, d in runs[0]['files']], predicted_exit=s['outs'][0]['code'], agrees=okk))
        # ---- evidence
        st = {}; cls = [0] * 8; und = {}; kinds = {}; fset = set(); perjob = {}
        for r in res:
            for k, x in r['stats'].items(): st[k] = max(st.get(k, 0), x) if k == 'nsym' else st.get(k, 0) + x
            cls = [a + b for a, b in zip(cls, r['cls'])]
            for k, x in r['undecided'].items(): und[k] = und.get(k, 0) + x
            for k, x in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + x
            fset |= set(r['funcs']); perjob[r['job']] = perjob.get(r['job'], 0) + r['paths']
        fn = {}
        for l in open(R['funcs']):
            i, k, n, name = l.split(None, 3); fn[int(i)] = (k, name.strip())
        own = sorted(fn[i][1] for i in fset if i in fn and fn[i][0] == 'code' and ('3c8s' in fn[i][1]))
        paths = sum(perjob.values()); undn = sum(und.values())
        missing = [n for n in names if n not in perjob]
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(fresh),
            assumptions=ASSUME + P.assume,
            coverage=dict(states=st.get('forks', 0) + len(perjob), transitions=st.get('insts', 0), traces_validated_against_impl=val, samples=ex,
                exhaustive=False, technique='symbolic execution of the LLVM bitcode of the current tree; path conditions and assertions decided by Z3',
                bounds=P.bounds, jobs=len(P.jobs), jobs_not_started=missing[:50], paths_completed=paths, paths_undecided=undn, undecided_reasons=und,
                path_classes=dict(zip(['accepted', 'rejected', 'unspecified', 'information', 'fault', 'bad command line', 'relational', 'oracle capacity'], cls)), outcomes=kinds,
                assertions=st.get('oblig', 0), assertions_sent_to_z3=st.get('obligZ3', 0), z3_queries=st.get('z3q', 0), z3_sat=st.get('z3sat', 0), z3_unsat=st.get('z3unsat', 0), z3_seconds=round(st.get('z3t', 0), 2), single_symbol_domain_decisions=st.get('domq', 0), cached_queries=st.get('cacheq', 0),
                max_symbolic_bytes=st.get('nsym', 0), functions_encoded=len(own), functions=own[:400], library_functions_executed=len([1 for i in fset if i in fn and fn[i][0] == 'code']) - len(own), engine_seconds=round(R['wall'], 1), build_seconds=round(tbuild, 1),
                prediction_mismatches=mism, not_reproduced=len(unconfirmed), known_findings=nk))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
        if verbose:
            jw = {n: sum(r['stats']['wall'] for r in res if r['job'] == n) for n in perjob}; ju = {}
            for r in res:
                for k, x in r['undecided'].items(): ju.setdefault(r['job'], {}).setdefault(k, 0); ju[r['job']][k] += x
            for n in sorted(perjob, key=lambda n: -jw[n])[:25]: print('%8d paths  %6.1fs  %s %s' % (perjob[n], jw[n], n, ju.get(n, '')))
            for n in ju: print('undecided', n, ju[n])
            ac = {}
            for r in res: ac[r['job']] = ac.get(r['job'], 0) + r['cls'][0] + r['cls'][6]
            print('never accepted:', ' '.join(n for n in perjob if not ac.get(n)))
        print('%s %s: %d jobs, %d paths (%s), %d undecided %s, %d z3 queries in %.1fs, %d of %d sampled predictions confirmed, engine %.1fs, total %.1fs' % (pid, tier, len(P.jobs), paths, ' '.join('%s %d' % (a, b) for a, b in zip(['acc', 'rej', 'unspec', 'info', 'fault', 'clierr', 'rel', 'OVER'], cls) if b), undn, dict(list(und.items())[:4]) if und else '', st.get('z3q', 0), st.get('z3t', 0), val, val + mism, R['wall'], time.time() - t0))
        if missing and not fresh: print('not started within the budget: %d jobs' % len(missing))
        if fresh:
            os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
            for n, (j, v, rc, runs, outs) in enumerate(fresh):
                p = os.path.join(V, 'replays', '%s-%d.json' % (pid, n))
                json.dump(dict(property=pid, prop=j.prop or P.num, crate=kind, mask=j.mask if j.mask is not None else P.mask, job=j.name, violated=describe(rc), tries=120 if any(r.hash for r in j.runs) else 1, key=key_of(runs),
                    runs=[dict(argv=[a.hex() for a in r['argv']], files=[[a.hex(), b.hex()] for a, b in r['files']], plan=r['plan'], env=r.get('env', {}), times=r.get('times', {})) for r in runs], symbols=v['syms'], engine_note=v['outs'][-1]['note'],
                    readable=[dict(argv=[a.decode('latin1') for a in r['argv']], files=[[a.decode('latin1'), b.decode('latin1')] for a, b in r['files']]) for r in runs],
                    observed=[dict(kind=o['kind'], code=o['code'], stdout=o['out'].decode('latin1'), stderr=o['err'].decode('latin1'), files=[[f['path'].decode('latin1'), None if f['post'] is None else f['post'].decode('latin1')] for f in o['files']]) for o in outs]), open(p, 'w'), indent=1)
                print('counterexample (%s, job %s): argv=%s input=%s%s -> exit %s stdout=%s files=%s' % (describe(rc), j.name, [a.decode('latin1') for a in runs[-1]['argv']], show(runs[-1]['files']), ' plan=' + runs[-1]['plan'] if runs[-1]['plan'] else '', [(o['kind'], o['code']) for o in outs], show(outs[-1]['out']), show([(f['path'], f['post']) for f in outs[-1]['files']])))
                print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        if unconfirmed:
            for j, v, rc, runs, outs in unconfirmed[:5]:
                print('ERROR: counterexample of the engine does not reproduce (job %s, claimed %s): %s\n  predicted %s\n  real %s' % (j.name, describe(v['rc']), show(runs), show(v['outs'], 600), show(outs, 600)))
            return 2
        if err or paths == 0: return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(main())
