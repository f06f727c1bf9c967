import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
import templates
T = 'symbolic execution of the real program\'s LLVM bitcode, assertions decided by an SMT solver (Z3) within stated bounds'
N = {
 'C16': 'All 65536 words and all spacings in the bounds are covered: the two bytes of the word are symbolic and every path of decode, encode, format, scan, parse and assemble is explored.',
 'C13': 'Relational: two runs of the program in one formula, one as written, one with symbolic letter case; their results must agree.',
 'C14': 'Relational: two runs of the program in one formula, one of them with symbolic layout; their results must agree.',
 'C18': 'Relational: two runs of the program in one formula; hash values of label names, read sizes and paths are symbolic in the second; their results must agree.',
 'C10': 'I/O schedules are symbolic: each modelled system call may fail, be partial or be interrupted by a solver-chosen amount.',
}
checks = []
for pid in sorted(templates.PROPS):
    P = templates.property(pid, 'quick')
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid, technique=T, level='model_checking',
        level_note=(N.get(pid, '') + ' Holds for every value of the symbolic bytes in each of %d question templates (quick tier), from process entry to exit. Bounds: %s. Trusts: rustc/LLVM up to the bitcode, the engine and its model of the kernel boundary (cross-checked each run by replaying sampled paths on the real binary), Z3, and the reference semantics in spec/spec.c.' % (len(P.jobs), P.bounds)).strip()))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[], notes='No hooks are needed in /repo: the unmodified program is executed symbolically. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
