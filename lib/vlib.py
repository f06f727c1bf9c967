"""Builds, runs and replays: everything around the symbolic executor."""
import ctypes, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('C8S_REPO', '/repo')
BUILD = os.path.join(V, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'

# ------------------------------------------------------------------ violation codes (spec.c)
CRASH, REJECT_GOOD, BYTES, FORMAT, FAILTOUCH, NODIAG, OTHERFILE, NOISE, LOC, REL, CLI, IO, ROUND, NAME = [1 << i for i in range(14)]
A_FORM, A_FIELD, A_LIT, A_LABEL, A_EQU, A_DB, A_MEM, A_OVERLAP, A_LEX, A_SYNTAX, A_DIR, A_INPUT = [1 << (16 + i) for i in range(12)]
A_ALL = 0xfff << 16
NAMES = {CRASH: 'crash', REJECT_GOOD: 'valid program rejected', BYTES: 'wrong bytes or addresses', FORMAT: 'malformed I8HEX', FAILTOUCH: 'failing run modified the destination', NODIAG: 'failure without diagnostic',
         OTHERFILE: 'other file modified', NOISE: 'extra output on success', LOC: 'wrong diagnostic location', REL: 'equivalent runs disagree', CLI: 'command-line contract', IO: 'exit status 0 without a complete result', ROUND: 'round trip', NAME: 'diagnostic does not name what is wrong',
         A_FORM: 'accepted: undocumented form', A_FIELD: 'accepted: operand does not fit', A_LIT: 'accepted: literal out of range', A_LABEL: 'accepted: undefined or duplicate label', A_EQU: 'accepted: bad .EQU', A_DB: 'accepted: bad .DB',
         A_MEM: 'accepted: past the end of memory or bad .ORG', A_OVERLAP: 'accepted: overlapping data', A_LEX: 'accepted: malformed token', A_SYNTAX: 'accepted: malformed statement', A_DIR: 'accepted: unknown directive', A_INPUT: 'accepted: unreadable input'}
def describe(rc): return ', '.join(n for b, n in NAMES.items() if rc & b) or hex(rc)

# ------------------------------------------------------------------ jobs
class S:
    """A symbolic byte ranging over a set of values; the same object used twice is the same byte."""
    n = 0
    def __init__(self, values): self.values = bytes(sorted(set(values)))
class Up:
    """The upper-case image of a symbol over lower-case letters and digits."""
    def __init__(self, s): self.s = s
def T(*parts):
    """Template: str/bytes are literal, S objects symbolic, lists are spliced."""
    r = []
    for p in parts:
        if isinstance(p, str): r += list(p.encode())
        elif isinstance(p, (bytes, bytearray)): r += list(p)
        elif isinstance(p, (S, Up)): r.append(p)
        elif isinstance(p, (list, tuple)): r += T(*p)
        elif isinstance(p, int): r.append(p)
        else: raise TypeError(p)
    return r
class Run:
    def __init__(self, src=None, args=None, files=None, faults=None, chunk=0, hash=0, infile='in.s', out='out.hex', pre=None):
        self.args = args if args is not None else ['c8s', '-o', out, infile]
        self.files = list(files) if files is not None else ([(infile, src)] if src is not None else [])
        if pre is not None: self.files.append((out, pre))
        self.files = [(T(a), T(b)) for a, b in self.files]
        self.args = [T(a) for a in self.args]
        self.faults, self.chunk, self.hash = faults, chunk, hash
class Job:
    def __init__(self, name, *runs, mask=None, steps=None, paths=None, cold=False, prop=0, deep=False):
        self.name, self.runs, self.mask, self.steps, self.paths, self.cold, self.prop, self.deep = name, list(runs), mask, steps, paths, cold, prop, deep
    def syms(self):
        seen = []
        for r in self.runs:
            for seg in r.args + [x for f in r.files for x in f]:
                for c in seg:
                    if isinstance(c, Up): c = c.s
                    if isinstance(c, S) and c not in seen: seen.append(c)
        return seen
    def text(self, mask, prop):
        sy = self.syms(); idx = {id(s): i for i, s in enumerate(sy)}
        seg = lambda g: ''.join('{%d}' % idx[id(c)] if isinstance(c, S) else '{%d^}' % idx[id(c.s)] if isinstance(c, Up) else '%02x' % c for c in g) or '-'
        L = ['job %s %d %x' % (self.name, prop, self.mask if self.mask is not None else mask)]
        if self.steps: L.append('opt steps %d' % self.steps)
        if self.paths: L.append('opt paths %d' % self.paths)
        if self.cold: L.append('opt cold 1')
        for i, s in enumerate(sy):
            b = bytearray(32)
            for v in s.values: b[v >> 3] |= 1 << (v & 7)
            L.append('sym s%d %s' % (i, b.hex()))
        for r in self.runs:
            L.append('run')
            for a in r.args: L.append('arg ' + seg(a))
            for p, d in r.files: L.append('file %s %s' % (seg(p), seg(d)))
            if r.faults: L.append('faults %d %s' % r.faults)
            if r.chunk: L.append('chunk %d' % r.chunk)
            if r.hash: L.append('hash %d' % r.hash)
        return '\n'.join(L) + '\n'
    def concrete(self, syms):
        sy = self.syms(); val = {id(s): syms.get('s%d' % i, s.values[0]) for i, s in enumerate(sy)}
        f = lambda g: bytes(val[id(c)] if isinstance(c, S) else ord(chr(val[id(c.s)]).upper()) if isinstance(c, Up) else c for c in g)
        out = []
        for k, r in enumerate(self.runs):
            plan = []
            for n, v in syms.items():
                m = re.match(r'r%d_(open|create|rename|read1?|write1?|stdout1?|rsize)(\d+)$' % k, n)
                if m and v:
                    op, i = m.group(1), m.group(2)
                    if op in ('read', 'write', 'stdout') or not op.endswith('1'): plan.append('%s:%s:%d' % (i, op, v))
                    else: plan.append('%s:%s:%d' % (i, op, v))
            envs = {}; times = {}
            for n, v in syms.items():
                if n == 'r%d_clock' % k: plan.append('-1:clock:%d' % v)
                elif n == 'r%d_pid' % k: plan.append('-1:pid:%d' % v)
                elif n.startswith('r%d_tty' % k): plan.append('-1:tty%s:%d' % (n[-1], v))
                elif n.startswith('r%d_mtime' % k): times[int(n.split('mtime')[1])] = 1600000000 + v
                elif n.startswith('r%d_env_' % k) and v: envs[n[len('r%d_env_' % k):]] = [None, '', '1', '0', '8', 'x'][v]
            out.append(dict(argv=[f(a) for a in r.args], files=[(f(p), f(d)) for p, d in r.files], plan=','.join(plan), env=envs, times=times))
        return out

# ------------------------------------------------------------------ builds
def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=isinstance(cmd, str), env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths): h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]
def repo_hash():
    fs = []
    for d, ds, ns in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'target')]
        fs += [os.path.join(d, n) for n in ns if os.path.isfile(os.path.join(d, n))]
    return fhash(fs)
class BuildError(Exception): pass
class RepoBuildError(BuildError): pass
def keep(prefix, name):
    for p in glob.glob(os.path.join(BUILD, prefix + '*')):
        if os.path.basename(p).split('.')[0] != name:
            if os.path.isdir(p): shutil.rmtree(p, ignore_errors=True)
            else:
                try: os.unlink(p)
                except OSError: pass
def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = fhash(glob.glob(V + '/engine/*.hpp') + glob.glob(V + '/engine/*.cpp') + [V + '/engine/build.sh']); n = 'symx-' + h; out = os.path.join(BUILD, n)
    if not os.path.exists(out):
        t = out + '.tmp%d' % os.getpid(); r = sh(['bash', V + '/engine/build.sh', t])
        if r.returncode: raise BuildError('engine: ' + r.stdout[-3000:])
        os.rename(t, out); keep('symx-', n)
    return out
def build_spec():
    os.makedirs(BUILD, exist_ok=True)
    h = fhash([V + '/spec/spec.c', V + '/lib/shim.c']); n = 'spec-' + h; bc = os.path.join(BUILD, n + '.bc'); so = os.path.join(BUILD, n + '.so'); shim = os.path.join(BUILD, n + '.shim.so')
    if not (os.path.exists(bc) and os.path.exists(so) and os.path.exists(shim)):
        w = ['-Wno-everything']
        for c in (['clang', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-ffreestanding', '-c', '-emit-llvm'] + w + [V + '/spec/spec.c', '-o', bc], ['clang', '-O1', '-shared', '-fPIC'] + w + [V + '/spec/spec.c', '-o', so], ['clang', '-O1', '-shared', '-fPIC', '-w', V + '/lib/shim.c', '-o', shim, '-ldl']):
            r = sh(c)
            if r.returncode: raise BuildError('spec: ' + r.stdout[-3000:])
        keep('spec-', n)
    return bc, so, shim
BCENV = dict(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_PROFILE_RELEASE_LTO='fat', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='1', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_PANIC='abort', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true', CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='true', CARGO_PROFILE_RELEASE_DEBUG='0', RUSTFLAGS='')
def crate_dir(kind):
    """The crate to encode: /repo itself, or the round-trip harness that includes /repo's modules."""
    if kind == 'c8s': return REPO, repo_hash()
    src = os.path.join(V, 'roundtrip'); h = repo_hash() + fhash([src + '/main.rs'])
    h = hashlib.sha256(h.encode()).hexdigest()[:16]; d = os.path.join(BUILD, 'rt-' + h)
    # a copy of the crate in which main is renamed and the harness appended, so the modules are compiled exactly as in the real crate
    with RTLOCK:
        if not os.path.exists(d): make_rt(src, d); keep('rt-', os.path.basename(d))
    return d, h
RTLOCK = threading.Lock()
def make_rt(src, final):
    d = final + '.tmp%d' % os.getpid(); shutil.rmtree(d, ignore_errors=True); shutil.copytree(REPO + '/src', d + '/src')
    m, k = re.subn(r'(?m)^(\s*(?:pub(?:\([^)]*\))?\s+)?fn\s+)main(\s*\()', r'#[allow(dead_code)] \1c8s_original_main\2', open(d + '/src/main.rs').read(), count=1)
    t = open(src + '/main.rs').read()
    if 'to_formatted_assembly_string' not in open(d + '/src/assembler/opcode.rs').read(): t = t.replace('opcode.to_formatted_assembly_string(args[2].len())', 'opcode.to_assembly_string()')
    open(d + '/src/main.rs', 'w').write(m + '\n' + t)
    t = open(REPO + '/Cargo.toml').read(); open(d + '/Cargo.toml', 'w').write(t + ('' if '[workspace]' in t else '\n[workspace]\n'))
    if os.path.exists(REPO + '/Cargo.lock'): shutil.copy(REPO + '/Cargo.lock', d + '/Cargo.lock')
    os.rename(d, final)
def build_bc(kind='c8s'):
    os.makedirs(BUILD, exist_ok=True)
    d, h = crate_dir(kind); n = 'bc%s-%s' % (kind, h); td = os.path.join(BUILD, n); out = os.path.join(BUILD, n + '.bc')
    if not os.path.exists(out):
        r = sh(['cargo', 'rustc', '--offline', '--release', '--bin', 'c8s', '--manifest-path', d + '/Cargo.toml', '--target-dir', td, '--', '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-Ctarget-cpu=x86-64'], env=BCENV)
        f = glob.glob(td + '/release/deps/c8s-*.bc')
        if r.returncode or not f: raise RepoBuildError('bitcode build failed:\n' + r.stdout[-3000:])
        shutil.copy(max(f, key=os.path.getmtime), out + '.tmp'); os.rename(out + '.tmp', out); shutil.rmtree(td, ignore_errors=True); keep('bc%s-' % kind, n)
    return out
def build_native(kind='c8s'):
    d, h = crate_dir(kind); n = 'dev%s-%s' % (kind, h); td = os.path.join(BUILD, n); out = os.path.join(BUILD, n + '.bin')
    if not os.path.exists(out):
        r = sh(['cargo', 'build', '--offline', '--bin', 'c8s', '--manifest-path', d + '/Cargo.toml', '--target-dir', td], env=dict(RUSTUP_TOOLCHAIN=TOOLCHAIN))
        if r.returncode: raise RepoBuildError('native build failed:\n' + r.stdout[-3000:])
        shutil.copy(td + '/debug/c8s', out + '.tmp'); os.rename(out + '.tmp', out); shutil.rmtree(td, ignore_errors=True); keep('dev%s-' % kind, n)
    return out
class Bg(threading.Thread):
    def __init__(self, f, *a): super().__init__(daemon=True); self.f, self.a, self.e, self.r = f, a, None, None; self.start()
    def run(self):
        try: self.r = self.f(*self.a)
        except Exception as e: self.e = e
    def get(self):
        self.join()
        if self.e: raise self.e
        return self.r

# ------------------------------------------------------------------ native execution and judgement
def native_run(binary, shim, run, scratch, timeout=20, preload=True):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        for i, (p, data) in enumerate(run['files']):
            q = os.path.join(os.fsencode(d), p)
            if b'/' in p: os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f: f.write(data)
            t = run.get('times', {}).get(i) or run.get('times', {}).get(str(i))
            if t: os.utime(q, (t, t))
        log = d + '.log'; env = dict(PATH=os.environ['PATH'], C8S_PLAN=run.get('plan', ''), C8S_LOG=log, RUST_BACKTRACE='0', **run.get('env', {}))
        if preload: env['LD_PRELOAD'] = shim
        kind, code = 0, 0
        try:
            r = subprocess.run([run['argv'][0]] + run['argv'][1:], executable=binary, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            so, se = r.stdout, r.stderr
            if r.returncode < 0 or r.returncode == 101: kind = 1
            code = r.returncode & 0xff
        except subprocess.TimeoutExpired as e: kind, so, se = 3, e.stdout or b'', e.stderr or b''
        lg = open(log).read().split('\n') if os.path.exists(log) else []
        fm = 0
        for l in lg:
            if l.startswith('fault '): fm |= int(l[6:])
        post = {}
        for root, _, ns in os.walk(os.fsencode(d)):
            for n in ns: q = os.path.join(root, n); post[os.path.relpath(q, os.fsencode(d))] = open(q, 'rb').read()
        pre = dict(run['files']); files = []
        spelt = {os.path.normpath(p): p for p in pre}; post = {spelt.get(p, p): c for p, c in post.items()}     # names as given on the command line (./in.s)
        for p in list(pre) + [p for p in post if p not in pre]:
            files.append(dict(path=p, pre=pre.get(p), post=post.get(p)))
        return dict(kind=kind, code=code, out=so, err=se, files=files, nopen=sum(l == 'open' for l in lg), faultmask=fm, argv=run['argv'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(d + '.log'): os.unlink(d + '.log')
def judge(so, prop, outs):
    lib = ctypes.CDLL(so); keepalive = []
    def ptr(b):
        x = ctypes.create_string_buffer(b, len(b) + 8); keepalive.append(x); return ctypes.addressof(x)
    def words(l):
        x = (ctypes.c_uint64 * len(l))(*l); keepalive.append(x); return x
    runs = []
    for o in outs:
        fl = []
        for f in o['files']:
            fl += [ptr(f['path']), len(f['path']), int(f['pre'] is not None), ptr(f['pre'] or b''), len(f['pre'] or b''), int(f['post'] is not None), ptr(f['post'] or b''), len(f['post'] or b''), 0]
        fw = words(fl or [0]); av = []
        for a in o['argv']: av += [ptr(a), len(a)]
        aw = words(av)
        runs += [o['kind'], o['code'], len(o['argv']), ctypes.addressof(aw), ptr(o['out']), len(o['out']), ptr(o['err']), len(o['err']), len(o['files']), ctypes.addressof(fw), o['nopen'], o['faultmask']] + [0] * 8
    rw = words(runs); pw = words([0]); env = words([0xc85, prop, len(outs), ctypes.addressof(rw), ctypes.addressof(pw), 0, 0, 0, 0, 0, 0, 0])
    lib.spec_check(env); return int(env[7]), int(env[8])

# ------------------------------------------------------------------ symbolic run
WARM = b'; warm up\nlab: .equ $123\n .org $200\nx: .db "a\\"b",$1,#F,%1.0,255\n LD V0, $12\n JP x ; comment\n\tADD VA, VB\n'
def run_engine(engine, bc, specbc, jobs, mask, prop, budget, workdir, procs=8, kind='c8s', verbose=False, joblimit=0):
    jf, of, ff, wf = [os.path.join(workdir, n) for n in ('jobs', 'results', 'funcs', 'warm')]
    for p in (of,):
        if os.path.exists(p): os.unlink(p)
    with open(jf, 'w') as f:
        for j in jobs: f.write(j.text(mask, j.prop or prop))
    warm = Job('warm', Run(WARM)) if kind == 'c8s' else Job('warm', Run(b'\x6a\x12', args=['c8s', 'in.s']))
    open(wf, 'w').write(warm.text(0, prop))
    t = time.time()
    log = os.path.join(workdir, 'log')
    with open(log, 'w') as lf:
        p = subprocess.Popen([engine, '--bc', bc, '--bc', specbc, '--warm', wf, '--jobs', jf, '--out', of, '--procs', str(procs), '--budget', str(budget), '--joblimit', str(joblimit), '--funcs', ff] + (['-v'] if verbose else []), stdout=lf, stderr=lf, start_new_session=True)
        try: rc = p.wait(timeout=budget + 60)
        except subprocess.TimeoutExpired:
            rc = 0   # what was not decided in time is reported as undecided
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait()
    txt = open(log, errors='replace').read()
    if verbose: print(txt[-4000:])
    res = []
    for l in open(of) if os.path.exists(of) else []:
        try: res.append(json.loads(l))
        except ValueError: pass
    return dict(rc=rc, log=txt, results=res, funcs=ff, wall=time.time() - t)
