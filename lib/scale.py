"""The same questions in large surroundings: a small symbolic core behind, in front of and between long runs of everything a
source can contain, with lengths on both sides of the usual counter widths and buffer sizes."""
from templates import *
from templates_b import pair, anycase, ERRORS, ODUMP, hash_pick

STEPS = 3000000000
def N(th, *a): return sorted(set(a) | (set((24, 40, 100, 200, 300, 400, 700, 1500, 3000)) & set(range(min(a), max(a))) if th else set()))

def texts(th):
    """Surroundings that neither emit bytes nor define anything: they may stand between any two statements."""
    C = {}
    for n in N(th, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097, 10001, 65537, 70000): C['lines%d' % n] = '\n' * n; C['com%d' % n] = '; ' + 'c' * n + '\n'
    for n in N(th, 33, 129, 257, 1025, 4097): C['coms%d' % n] = ';"$%\n' * n
    for n in (257, 1025, 4097, 70000): C['crlf%d' % n] = '\r\n' * min(n, 20000); C['tabs%d' % n] = '\t' * n + '\n'; C['ucom%d' % n] = '; ' + 'é' * n + '\n'
    return C
def blanks(th): return {'sp%d' % n: ' ' * n for n in N(th, 17, 65, 129, 257, 501, 513, 1025, 4097, 65537, 70000)}
def defs(th):
    """Definitions only: constants, labels."""
    C = {}
    nm = lambda i: 'q%d' % i + '_' * (i % 29)
    for n in N(th, 9, 17, 33, 65, 129, 257, 513, 1025): C['equs%d' % n] = ''.join('%s: .equ %d\n' % (nm(i), i % 4096) for i in range(n)); C['labs%d' % n] = ''.join('%s:\n' % nm(i) for i in range(n))
    for n in N(th, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 1025, 4097, 70000): C['name%d' % n] = 'a' * n + ':\n'
    return C
def code(th):
    """Statements that emit bytes from the current address on."""
    C = {}
    for n in N(th, 17, 33, 65, 129, 257, 513, 1025, 1500): C['ins%d' % n] = ' cls\n' * n; C['jps%d' % n] = ' jp $123\n' * n
    for n in N(th, 17, 65, 129, 255, 256, 257, 513, 1025, 2049, 3000): C['args%d' % n] = ' .db ' + ','.join(str(i % 256) for i in range(n)) + '\n'; C['dbs%d' % n] = ' .db 7\n' * n; C['str%d' % n] = ' .db "' + 'x' * n + '"\n'
    for n in N(th, 33, 129, 257, 300, 1025, 2049): C['strnl%d' % n] = ' .db "' + '\n' * n + '"\n'; C['stru%d' % n] = ' .db "' + 'é' * min(n, 1500) + '"\n'
    return C
def sections(th, at=0x600, span=2):
    C = {}
    for n in N(th, 9, 15, 16, 17, 31, 32, 33, 63, 65, 127, 129, 257, 513): C['secs%d' % n] = ''.join(' .org %d\n .db %d\n' % (at + span * i, i % 256) for i in range(n)); C['secsd%d' % n] = ''.join(' .org %d\n .db %d\n' % (at + span * (n - 1 - i), i % 256) for i in range(n))
    return C
def pads(th):
    """A comment that puts the core across a file offset at which buffered readers refill."""
    return {'at%d_%d' % (n, k): ';' + 'p' * (n - 2 - k) + '\n' for n in ((512, 1024, 4096, 8192, 16384, 65536) if th else (1024, 4096, 8192, 65536)) for k in (range(0, 12) if th else (0, 1, 2, 3, 5, 7, 9))}

def extend(p, pid, tier):
    th = tier == 'thorough'; J = p.jobs; h = lambda c=HEXL: S(c); b2 = lambda: ['$', h(), h()]; n0 = len(J)
    tx, bl, df, cd, sc, pd = texts(th), blanks(th), defs(th), code(th), sections(th), pads(th)
    def every(pick=None, *groups):
        for g in groups:
            for n, t in g.items():
                if th or pick is None or hash_pick(pid + n, pick): yield n, t
    def thin(parts):
        """Very long texts: fewer values per symbol, so that the number of paths stays small."""
        t = T(*parts); lim = (4 if len(t) > 9000 else 8 if len(t) > 3000 else 256) * (4 if th else 1)
        if len(t) <= 3000: return t
        for s in {id(c): c for c in t if isinstance(c, S)}.values():
            v = s.values
            if len(v) > lim: s.values = bytes(sorted(([c for c in b'\n "1a@;,:.$x\xc3\x80' if c in v] if len(v) > 60 else [v[i * (len(v) - 1) // (lim - 1)] for i in range(lim)])[:lim]))
        return t
    def add(name, *parts, mask=None, **kw): J.append(Job('z_' + name, Run(thin(parts), **kw), mask=mask, steps=STEPS))
    def deep(name, *parts, **kw): add(name, *parts, **kw); J[-1].deep = True
    def addp(name, a, b, **kw): thin(list(a) + list(b)); J.append(pair('z_' + name, a, b, steps=STEPS, **kw))
    ALLG = (tx, df, cd, sc, pd)
    if pid == 'C01':
        for n, t in every(None, *ALLG):
            add('a_' + n, t, ' drw v', h(), ', V', h(), ', ', h(DIG), '\n call $', h(), h(), h(), '\n')
            add('b_' + n, ' ld v', h(), ',$', h(), h(), '\n', t, ' ld I,$', h(), '00\n')
        for n, t in every(None, bl): add('c_' + n, ' ld', t, ' v', h(), t, ',', t, '$', h(), h(), t, '\n')
    if pid == 'C02':
        for n, t in every(None, *ALLG):
            add('a_' + n, t, ' ld v', h(), ',$', h(), h(), h(), '\n'); add('b_' + n, 'kk: .equ $', h(), h(), '0\n', t, ' drw v1,v2,kk\n'); add('c_' + n, t, S(b'cdejs'), S(b'lrpe'), S(b's w'), ' v1\n')
        for n, t in every(None, bl): add('d_' + n, ' add', t, ' v1', t, ',', t, sy(3, DIG), t, '\n')
    if pid == 'C03':
        for n, t in every(None, *ALLG): add('a_' + n, t, ' ld I, ', sy(4, DIG), '\n .db %', sy(3, BIN), '\n'); add('b_' + n, ' jp $', h(), h(), h(), '\n', t, ' jp #', h(), h(), '\n')
        for n, t in every(None, bl): add('c_' + n, ' jp', t, ' $', hx(2), t, '\n .db', t, sy(3, DIG), t, '\n')
    if pid == 'C04':
        for n, t in every(None, *ALLG):
            add('back_' + n, ' cls\nt', h(b'ab'), ':', h(b' \n'), ' ret\ntc: .equ 9\n', t, ' call t', h(b'abcd'), '\n'); add('fwd_' + n, ' call t', h(b'abcd'), '\n', t, 't', h(b'ab'), ': ret\ntc:\n')
            add('dup_' + n, 't', h(b'ab'), ': ret\n', t, 't', h(b'ab'), ':\n'); add('mid_' + n, 'ta: ', t, 'tb: jp t', h(b'ab'), '\n')
        for n, t in every(None, bl): add('sp_' + n, t, 'ta:', t, ' ret\n', t, 'tb', t, ':', t, '\n jp', t, ' t', h(b'abc'), t, '\n')
        for k in N(th, 9, 17, 33, 65, 129, 257, 513, 1025):      # the one referred to is any of many
            for q in sorted({0, 1, k // 2, k - 2, k - 1}):
                add('many%d_%d' % (k, q), ''.join('n%d: .equ %d\n' % (i, (i * 37) % 4096) for i in range(k)), ' jp n%d' % q, h(b'xyz \t'), '\nn%dx: cls\n' % q); add('manyf%d_%d' % (k, q), ' jp n%d' % q, h(b'xy \t'), '\n', ''.join('n%d:\n%s' % (i, ' .db 1\n' if i % 3 == 0 else '') for i in range(k)), 'n%dx: cls\n' % q)
                add('mdup%d_%d' % (k, q), ''.join('n%d: .equ %d\n' % (i, (i * 37) % 4096) for i in range(k)), 'n%d' % q, h(b'xyz \t'), ': cls\n')
        for k in N(th, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025, 4097, 65537):      # long names that differ in one place only
            for w, q in (('first', 0), ('mid', k // 2), ('last', k - 1)):
                nm = ['n'] * k; a = list(nm); b = list(nm); a[q] = h(b'ab'); b[q] = h(b'abc'); add('long%d_%s' % (k, w), a, ': cls\n', b, ': ret\n'); c = list(nm); c[q] = 'a'; d = list(nm); d[q] = 'b'; add('longref%d_%s' % (k, w), c, ': cls\n', d, ': ret\n jp ', b, '\n')
            add('longlen%d' % k, 'n' * k, ': cls\n', 'n' * k, 'n: ret\n jp ', 'n' * k, h(b' n'), '\n')
    if pid == 'C05':
        for n, t in every(None, *ALLG):
            add('use_' + n, ' cls\nk1: .equ $', h(), h(), h(), '\n', t, 'k2: .equ ', sy(2, DIG), '\n ld I, k1\n ld v1,k2\n'); add('fwd_' + n, ' ld I,k1\n', t, 'k1: .equ $', h(b'0f'), h(), h(), '\nx: jp x\n')
        for n, t in every(None, tx, bl): add('gap_' + n, ' ret\nk1:', t, ' .equ $', h(), h(), h(), '\nxx: ld I,k1\n jp xx\n'); add('gap2_' + n, ' cls\nk1: .equ', ' ' * min(len(t), 5000), h(DIG), '\n', t, ' jp k1\n')
        for n, t in every(None, df): add('zero_' + n, ' cls\n', t, 'z: .equ ', h(b'01'), '\n jp z\n', t.replace('q', 'r').replace('a', 'b'), ' jp z\n')
        for n, t in every(None, tx): add('noeq_' + n, 'k1: cls\n', t, S(b'.;k'), S(b'ek:'), S(b'q :'), 'u 5\n')
    if pid == 'C06':
        for n, t in every(None, *ALLG): add('a_' + n, t, ' .db ', b2(), ',"', S(STRC), S(STRC), '"\n'); add('b_' + n, ' .db "', S(STRC), '",', sy(3, DIG), '\n', t, ' .db %', sy(2, BIN), '\n')
        for n, t in every(None, bl): add('c_' + n, ' .db', t, b2(), t, ',', t, '"', S(STRC), t[:1000], '"', t, ',', sy(3, DIG), t, '\n')
        for k in N(th, 17, 33, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2048, 2049, 3000, 4000, 4080, 4090):
            add('str%d' % k, ' .db "', S(STRC), 'q' * (k - 2), S(STRC), '",', b2(), '\n'); add('strq%d' % k, ' .db "', '\\"' * (k // 2 - 2), S(STRC), '\\\\",', b2(), '\n'); add('stru%d' % k, ' .db "', S(STRC), 'é' * (k // 2 - 2), S(STRC), '",', b2(), '\n'); add('stru3_%d' % k, ' .db "', '€' * (k // 3), S(STRC), '",', b2(), '\n')
            add('nums%d' % k, ' .db ', b2(), ',255' * (k - 3), ',', b2(), '\n'); add('strs%d' % k, ' .db ', '"ab",' * (k // 2 - 3), '"', S(STRC), '",', b2(), '\n'); add('dbs%d' % k, ' .db 1\n' * (k - 2), ' .db "', S(STRC), '",', b2(), '\n'); add('badlast%d' % k, ' .db ', '1,' * (k - 3), sy(3, DIG), '\n'); add('nl%d' % k, ' .db "', '\n' * (k - 3), S(STRC), '",', b2(), '\n')
    if pid == 'C07':
        for n, t in every(None, *ALLG): add('a_' + n, t, ' .org $', *((h(b'012345'), h(), h()) if n not in sc else (h(b'0123456789abcde'), '31')), '\n .db ', b2(), '\n cls\n', mask=p.mask | A_OVERLAP); add('top_' + n, t, ' .org $f', h(b'ef'), h(), '\n .db "abcdefghij"\n cls\n'); add('b_' + n, ' .org $0', h(), h(), '\n .db ', b2(), '\n .org $120\n', t.replace('.org', '.org ') if n not in sc else t, ' .db ', b2(), '\n')
        for k in N(th, 3, 5, 9, 17, 33, 65, 129, 257, 513):
            add('orgs%d' % k, ''.join(' .org %d\n cls\n' % (7 * i) for i in range(k)), ' .org $', *((h(), h(), h()) if k < 9 else (h(), '3', '5')), '\n .db ', b2(), '\n', mask=p.mask | A_OVERLAP); add('orge%d' % k, ''.join(' .org %d\n' % (7 * i) for i in range(k)), ' .db ', b2(), '\n .org $', h(), '01\n .db 9\n', mask=p.mask | A_OVERLAP); add('same%d' % k, ' .org $300\n' * k, ' .db ', b2(), '\n .org $30', h(b'012'), '\n .db 2\n', mask=p.mask | A_OVERLAP)
        for n, t in every(None, bl): add('sp_' + n, ' .org', t, '$', h(b'0123'), h(), h(), t, '\n', t, '.db', t, b2(), '\n')
    if pid == 'C08':
        for n, t in every(None, tx, df, sc, pd): add('gap_' + n, ' .org $10', h(), '\n .db "abcd"\n', t, ' .org $1', h(b'01'), h(), '\n .db "xyz"\n'); add('gapc_' + n, ' .org $100\n .db "', 'k' * 200, '"\n', t, ' .org $', h(b'012'), h(), h(), '\n .db 1\n')
        for n, t in every(None, cd): add('code_' + n, ' .org $ff', h(b'01234'), '\n .db 1\n .org $100\n', t, ' .org $', h(b'0123456789abcde'), h(), h(), '\n .db 1\n', mask=p.mask | A_MEM)
        for k in N(th, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 129, 257, 513, 800):
            sec = [' .org %d\n .db 1,2\n' % (0x100 + 4 * i) for i in range(k)]; bad = lambda i: [' .org ', [] if i < 0 else [], '%d' % (0x100 + 4 * i - 8), h(DIG), '\n .db 1\n']
            for q in sorted({0, 1, k // 2, k - 2, k - 1}):
                a = 0x100 + 4 * q; x = lambda: [' .org $%02x' % (a >> 4), h(), '\n .db 9\n']
                add('m%d_%d' % (k, q), sec, x()); add('mr%d_%d' % (k, q), sec[::-1], x()); add('mf%d_%d' % (k, q), x(), sec)
                if k < 300: add('mx%d_%d' % (k, q), sec[:q], x(), sec[q:]); add('my%d_%d' % (k, q), sec[::-1][:q], x(), sec[::-1][q:])
        for k in N(th, 33, 129, 255, 256, 257, 511, 513, 1025, 2049, 3000): add('big%d' % k, ' .org $100\n .db "', 'k' * k, '"\n .org $', h(), h(), h(), '\n .db 1,2\n', mask=p.mask | A_MEM); add('bigr%d' % k, ' .org $', h(), h(), h(), '\n .db 1,2\n .org $100\n .db "', 'k' * k, '"\n', mask=p.mask | A_MEM)
        for k in (2, 3, 10, 100, 127, 128, 255, 256, 257, 511, 512, 768, 1024):   # exactly k overlapping pairs, or one fewer
            if not th and k > 600: continue
            for w, m in (('', k), ('m', k - 1)): add('pairs%s%d' % (w, k), ' .db "', 'k' * k, '"\n', ''.join(' .org %d\n .db 1\n' % i for i in range(m - 1)), ' .org %d\n .db ' % (m - 1), h(DIG), '\n .org $fff\n', mask=p.mask | REJECT_GOOD)
        for k in (2, 3, 23, 24, 32, 33): add('clique%d' % k, ' .org $100\n .db 1\n' * k, ' .org $10', h(), '\n .db 1\n')
    if pid == 'C09':
        for n, t in every(None, *ALLG): add('a_' + n, t, ' .org $', *((h(b'0123'), h(), h()) if n not in sc else ('1', h(), '8')), '\n .db ', b2(), ',"', 'w' * 20, '"\n'); add('b_' + n, ' .org $20', h(b'01'), '\n .db ', b2(), ',"', 'w' * 13, '"\n', t, ' .db ', b2(), '\n'); add('s_' + n, t, ' .db ', b2(), '\n', out='-')
    if pid == 'C10':
        bad = dict(undef=lambda: [' jp t', h(b'ab'), '\ntb: cls\n'], lex=lambda: [' jp ', S(PRINT), '\n'], field=lambda: [' ld v1,$', h(b'0f'), h(), h(), '\n'])
        for n, t in every(None, *ALLG):
            for i, (w, f) in enumerate(bad.items()): add('%s_%s' % (w, n), t, f(), pre=ODUMP); add('%sf_%s' % (w, n), f(), t, **(dict(out='-') if i else dict()))
            add('ok_' + n, t, ' .db ', b2(), '\n', pre=ODUMP); add('okstd_' + n, t, ' .db ', b2(), '\n', out='-')
            if n in cd or n in sc: add('io_' + n, t, ' .db 1\n', pre=ODUMP, faults=(2, 'ocrw')); add('iostd_' + n, t, ' .db 1\n', out='-', faults=(2, 'ors'))
    if pid == 'C11':
        for n, t in every(None, *ALLG): add('a_' + n, t, S(ALL), '\n'); add('b_' + n, t, ' ld v1,', S(ALL), S(b'\n 1"'), '\n'); add('c_' + n, ' jp ', S(ALL), '\n', t); add('d_' + n, t, ' .db "', S(ALL), S(ALL), '\n')
        for n, t in every(None, bl): add('sp_' + n, t, S(ALL), t, '\n'); add('spe_' + n, ' jp', t, S(ALL), '\n')
        # long multi-byte text inside every kind of error, at every alignment
        U = dict(u2='é', u3='€', u4='\U0001f600')
        for w, ch in U.items():
            wd = len(ch.encode())
            for k in (3, 6, 9, 14, 20, 40, 70, 140, 300):
                for off in range(wd):
                    s = 'a' * off + ch * k; X = S(ASCII)
                    for c, t in dict(op=[' ld v1, "', s, X, '"\n'], op0=[' jp "', s, '"', X, '\n'], org=[' .org "', s, '"', X, '\n'], equ=['k: .equ "', s, X, '"\n'], open=[' .db "', s, X], openn=[' .db "', s, '\n', X, '\n'], stray=[' cls "', s, X, '"\n'], inv=[' jp ', X, s, '\n'], inv2=[s, X, '\n'], com=[' ld v1 ; ', s, X, '\n', s], comop=[' ld v1, ; ', s, '\n', X, '\n'], lab=['"', s, '":', X, '\n'], many=[' .db "', s, '", x', X, '\n'], idu=[' jp ab', s, X, '\n'], numu=[' .db 12', s, X, '\n'], hexu=[' .db $1', s, X, '\n'], binu=[' jp %1', s, X, '\n'], diru=[' .d', s, X, '\n'], two=[' .db "', s, '" "', s, X, '"\n'], ind=[' ld [', s, X, '\n']).items():
                        if not th and c not in ('op', 'stray', 'inv') and not hash_pick(w + c + str(k * 4 + off), 2): continue
                        add('u_%s_%s%d_%d' % (c, w, k, off), t)
        # long ASCII text inside every kind of error
        for k in (8, 16, 20, 32, 40, 64, 80, 100, 128, 200, 256, 500, 512, 1000, 1024, 4096, 70000):
            X = S(ALL)
            for c, t in dict(op=[' ld v1, "', 'a' * k, '"', X, '\n'], open=[' .db "', 'a' * k, X, '\n'], id=[' ', 'a' * k, ' v1', X, '\n'], undef=[' jp ', 'a' * k, X, '\n'], dup=['a' * k, ':\n', 'a' * k, X, ':\n'], num=[' .db 1', '0' * k, X, '\n'], dirn=[' .', 'a' * k, X, ' 1\n'], nl=[' ld "', '\n' * min(k, 5000), '"', X, '\n'], ff=[' ld ', ','.join(['v1'] * min(k, 1000)), X, '\n'], aa=['k: .equ ', ','.join(['1'] * min(k, 1000)), X, '\n'], fs=[' ', 'a' * k, X, ' ', ','.join(['"s"'] * 3), '\n']).items(): add('l_%s%d' % (c, k), t)
        for w, nm in dict(u2='é' * 40, u3='a' + '€' * 60, long='x' * 250, deep='/'.join(['d' * 50] * 30), dots='..x', sp='a b').items():
            for e, t in (('lex', [' jp ', S(PRINT), '\n']), ('ok', [' .db ', b2(), '\n']), ('undef', [' jp xx', S(b'yz '), '\n']), ('ovl', [' .db 1\n .org ', S(DIG), '\n .db 2\n'])): J.append(Job('z_path_%s_%s' % (w, e), Run(T(t), infile=nm + '.s'), steps=STEPS))
        # long lists: the stack must not grow with the input (the real dev build is run on one model of every path of these)
        for n, t in dict(db=[' .db ', '1,' * 40000, S(b'1x"'), '\n'], dbs=[' .db ', '"",' * 20000, S(b'1x'), '\n'], dbe=[' .db ', '1,' * 40000, S(b'\n;')], ld=[' ld ', 'v1,' * 13000, S(b'1v"'), '\n'], lde=[' drw ', 'xy,' * 13000], lab=['k:' + ' \n' * 30000, S(b'k1.'), ':\n'], org=[' .org 1\n' * 20000, S(b' .'), '\n'], com=[';\n' * 40000, S(b'@\n')], lit=['1 ' * 10, S(b'1,'), '\n'], colon=['k', ':' * 30000, '\n'], bra=[' jp ', '[' * 30000, S(b'i]'), '\n'], quo=[' .db ', '"' * 30001, S(b'"x'), '\n'], bs=[' .db "', '\\' * 30000, S(b'"n'), '"\n'], equ=['a: .equ 1\n .db ""\n' * 1 + ' .db ""\n' * 15000, S(b' .'), '\n']).items(): deep('deep_' + n, *t)
    if pid == 'C12':
        E = dict(lex=lambda: [' jp', S(b' \t'), '@\n'], undef=lambda: [' jp', S(b' \t'), 'tq\n'], field=lambda: [' ld v1,', S(b' 3'), '99\n'], dup=lambda: ['w:', S(b' \n'), ' cls\nw:\n'], syn=lambda: [' .db 1 ', S(b' \t'), 'x\n'], dire=lambda: [S(b' \n'), ' .foo 1\n'], str=lambda: [' .db "a', S(PRINT), '\n'], mem=lambda: [' .org $fff\n ', S(b' \t'), 'cls\n'], equ=lambda: [S(b' \n'), '.equ 5\n'])
        for n, t in every(None, *ALLG):
            for i, (e, f) in enumerate(E.items()):
                if (n in tx or n in bl) or th or hash_pick(n + e, 3): add('%s_%s' % (e, n), t, f())
        for n, t in every(None, bl):
            for e, f in E.items(): add('%s_%s' % (e, n), t, f(), ' cls\n')
            add('in_' + n, ' jp', t, S(b' @'), 'tq\n'); add('in2_' + n, ' .db 1,', t, '"a",', S(b' \t'), '$\n')
        for k in N(th, 33, 65, 129, 255, 256, 257, 511, 513, 1025, 4097, 65537):       # to the right of long tokens on the same line
            for c, t in dict(str=[' .db "', 'a' * min(k, 3900), '", '], stru=[' .db "', 'é' * min(k, 1900), '", '], strnl=[' .db "', '\n' * min(k, 3900), '", '], strmix=[' .db "', 'ab\né' * min(k, 900), '", '], nums=[' .db ', '1,' * min(k, 3900)], num0=[' .db ', '0' * k, '1, '], binn=[' .db %', '.' * k, '1, '], lab=['a' * k, ': .db ']).items():
                for e, x in dict(lex='@\n', hexl='$\n', ident='x\n', lit='4096\n', br='[I]\n').items(): add('r_%s%d_%s' % (c, k, e), t, S(b' \t'), x)
            for e, t in dict(ident=[' jp ', 'a' * k, '\n'], mnem=[S(b' \t'), 'a' * k, ' v1\n'], dire=[' .', 'a' * k, ' 1\n'], dup=['a' * k, ':', S(b' \n'), '\n ', 'a' * k, ':\n'], num=[' jp ', '9' * k, '\n'], binl=[' jp %1', '0' * k, '\n'], strop=[' ld v1,', S(b' \t'), '"', 'a' * k, '"\n']).items(): add('w_%s%d' % (e, k), ' cls\n', t)
        for nm in ('x' * 250 + '.s', '/'.join(['d' * 50] * 20) + '/q.asm', 'é' * 30 + '.s', 'a:3:4', 'in'): J.append(Job('z_file_%d_%d' % (len(nm), hash_int(nm)), Run(T(S(b' \n'), ' jp @\n'), infile=nm), steps=STEPS))
    if pid == 'C13':
        for n, t in every(None, tx, df, cd, sc):
            for i, (w, s) in enumerate([('ld', ' ld vA, $1f\n'), ('lab', 'Tq: jp Tq\n'), ('db', ' .db $aB,"xY"\n'), ('ind', ' ld [i], vb\n'), ('org', ' .org $1aB\n')]):
                k = T(s); v = [S([c, c ^ 32]) if chr(c).isalpha() and not (w == 'lab' and chr(c) in 'Tq') and not (w == 'db' and i2 > 8) else c for i2, c in enumerate(k)]
                if th or hash_pick(n + w, 2): addp('%s_%s' % (w, n), [t, s], [t, v])
        for k in N(th, 9, 17, 33, 65, 129, 257, 513): addp('defs%d' % k, [''.join('Nm%d: .equ %d\n' % (i, i) for i in range(k)), ' jp Nm%d\n' % (k - 1)], [''.join('Nm%d: .equ %d\n' % (i, i) for i in range(k)), anycase(' jp'), ' Nm%d\n' % (k - 1)])
        for k in (1, 8, 16, 31, 32, 33, 64, 65, 128, 257, 1025):      # letter case of names stays significant at every length and place
            for q in sorted({0, k // 2, k - 1}): nm = ['n'] * k; a = list(nm); a[q] = S(b'aA'); b = list(nm); b[q] = S(b'aA'); add('cs%d_%d' % (k, q), a, 'q: cls\n ret\n', b, 'q: nop\n', mask=A_LABEL | REJECT_GOOD | BYTES); c = list(nm); c[q] = 'a'; add('cr%d_%d' % (k, q), c, 'q: cls\n jp ', b, 'q\n', mask=A_LABEL | REJECT_GOOD | BYTES)
    if pid == 'C14':
        G = dict(ins=(' ld v1', ',', ' $2A', '\n'), jp=('t1', ':', ' jp', ' t1', '\n'), db=(' .db', ' 1', ',', '"a b"', ',', '%1', '\n'), org=(' .org', ' $2', '00', '\n', ' cls', '\n'), equ=('k', ':', ' .equ', ' 7', '\n', ' ld v1,k\n'), bad=(' ld', ' v1', ',', ' 400', '\n'))
        G['org'] = (' .org', ' $200', '\n', ' cls', '\n')
        for n, t in every(None, bl):
            for g, parts in G.items():
                base = ''.join(parts)
                for i in range(len(parts)):
                    if parts[i].endswith('\n') and i == len(parts) - 1: continue
                    addp('%s_%s_%d' % (g, n, i), [base], [parts[:i], t, S(WS), parts[i:]])
                addp('%s_%s_e' % (g, n), [base], [base[:-1], t, S(WS), '\n']); addp('%s_%s_h' % (g, n), [base], [t, S(b' \n'), base])
        for n, t in every(None, tx):
            for g, parts in G.items(): base = ''.join(parts); addp('%s_%s_pre' % (g, n), [base], [t, S(b' \n'), base]); addp('%s_%s_post' % (g, n), [base], [base, t, S(b' \n')]); addp('%s_%s_mid' % (g, n), [' cls\n', base], [' cls\n', t, base, S(b' \n\t'), t]); addp('%s_%s_com' % (g, n), [base], [base[:-1], ' ;', S(PRINT), t.replace('\n', ' ') , '\n'])
            if 'u' not in n: addp('labnl_' + n, ['t1: jp t1\n'], ['t1:', t, S(b' \n'), 'jp t1\n']); addp('equnl_' + n, ['t1: .equ 5\n jp t1\n'], ['t1:', t, S(b' \n'), '.equ 5\n jp t1\n'])
        for k in N(th, 3, 9, 33, 129, 257, 513): addp('each%d' % k, [' nop\n' * k], [' nop ;x\n\n' * (k - 1), ' nop ;', S(PRINT), '\n', S(b'\n ')])
    if pid == 'C15':
        A = lambda *a: ['c8s'] + list(a); F = lambda *m: [('in.s', T(' .db $', S(HEXL), '1\n'))] + list(m)
        for k in (2, 3, 4, 5, 8, 10, 16, 17, 33, 64, 100, 257): J.append(Job('z_inputs%d' % k, Run(args=A(*(['in.s'] * k)), files=F(('a.hex', b'old'))), steps=STEPS)); J.append(Job('z_inputso%d' % k, Run(args=A('-o', 'out.hex', *(['in.s'] * k)), files=F(('out.hex', b'old'))), steps=STEPS)); J.append(Job('z_os%d' % k, Run(args=A('in.s', *(['-o', 'out.hex'] * k)), files=F(('out.hex', b'old'))), steps=STEPS)); J.append(Job('z_hs%d' % k, Run(args=A('in.s', *(['-' + 'h' * k])), files=F()), steps=STEPS))
        for k in (8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250, 255):
            nm = T('o' * (k - 2), S(IDC), S(IDC)); J.append(Job('z_name%d' % k, Run(args=A('-o', nm, 'in.s'), files=F()), steps=STEPS)); J.append(Job('z_nameq%d' % k, Run(args=A(T('--output=', nm), 'in.s'), files=F()), steps=STEPS)); J.append(Job('z_nameg%d' % k, Run(args=A('in.s', T('-o', nm)), files=F()), steps=STEPS)); J.append(Job('z_in%d' % k, Run(args=A('-o', 'out.hex', T('i' * k)), files=[(T('i' * k), T(' .db $', S(HEXL), '1\n'))]), steps=STEPS)); J.append(Job('z_def%d' % k, Run(args=A(T('i' * k)), files=[(T('i' * k), T(' .db $', S(HEXL), '1\n'))]), steps=STEPS))
        for n, t in every(3, tx, df, cd, sc): J.append(Job('z_src_' + n, Run(args=A('in.s'), files=[('in.s', T(t, ' .db ', b2(), '\n')), ('out.hex', b'keep')]), steps=STEPS)); J.append(Job('z_srcstd_' + n, Run(args=A('in.s', '-o', '-'), files=[('in.s', T(t, ' .db ', b2(), '\n')), ('a.hex', b'keep')]), steps=STEPS)); J.append(Job('z_srco_' + n, Run(args=A('--output', 'x.y', 'in.s'), files=[('in.s', T(t, ' .db ', b2(), '\n')), ('a.hex', b'keep')]), steps=STEPS))
        # names that contain, begin or end with what the command line treats specially
        for i, nm in enumerate(['-o', '-h', '--help', '--output', '-v', '--', '---', '-a', 'a-', '-.hex', 'a.hex', '=', '-=', '--output=x', ' ', 'a b', '~', '*', 'x.s', 'in.s.hex', 'stdout', 'null', 'é', '%s', '$HOME', '-1', '0', 'con', 'out.hex ', 'OUT.HEX', '.hex', '..x', '\t']):
            for w, a in dict(o=A('-o', nm, 'in.s'), g=A('-o' + nm, 'in.s'), q=A('--output=' + nm, 'in.s'), l=A('in.s', '--output', nm)).items(): J.append(Job('z_sp%d_%s' % (i, w), Run(args=a, files=F()), steps=STEPS))
            J.append(Job('z_spd%d' % i, Run(args=A('-o', 'out.hex', '--', nm), files=[(nm, T(' .db $', S(HEXL), '1\n'))]), steps=STEPS)); J.append(Job('z_spdd%d' % i, Run(args=A('--', nm), files=[(nm, T(' .db $', S(HEXL), '1\n'))] if nm != 'a.hex' else F()), steps=STEPS))
    if pid == 'C17':
        for n, t in every(None, *ALLG): add('a_' + n, t, ' ', S(ASCII), S(ASCII), '\n'); add('b_' + n, t, ' ld v1,', S(PRINT), S(PRINT), '\n', t if n in tx else ''); add('c_' + n, ' cls', S(ASCII), '\n', t); add('d_' + n, t, ' .db "ab', S(ASCII), S(b'"\n '), '\n')
        for n, t in every(None, bl): add('sp_' + n, ' ld', t, ' v1', t, S(PRINT), t, '2\n'); add('spe_' + n, t, S(ASCII), t, '\n')
        for k in N(th, 9, 17, 33, 65, 129, 257, 513, 1025, 4097, 70000):
            for c, t in dict(str=[' .db "', 'a' * min(k, 3900), S(b'"a'), '\n'], strx=[' .db "', 'a' * min(k, 3900), '"', S(PRINT), '\n'], ident=[' jp ', 'a' * k, S(ASCII), '\n', 'a' * k, ':\n'], lab=['a' * k, S(ASCII), ' cls\n'], num=[' jp ', '0' * k, S(PRINT), '\n'], binl=[' jp %', '0' * k, S(PRINT), '\n'], args=[' .db ', '1,' * min(k, 3900), S(PRINT), '\n'], args2=[' .db ', ','.join('1' * min(k, 3900)), S(PRINT), '\n'], com=[';', 'x' * k, S(ASCII), 'jp\n'], dire=[' .db', 'x' * k, ' 1\n'], fld=[' ld v1', ',' * min(k, 500), S(b'v1,'), '\n'], dots=['.' * k, S(PRINT), '\n'], cols=['ab', ':' * k, S(b' \n'), '\n']).items(): add('l_%s%d' % (c, k), t)
    if pid == 'C18':
        ext = sy(3, IDC); small = [' .db 1,2\nx: jp x\n .db "aB"\n']; other = [' jp nowhere\n']
        for w, t in dict(ok=small, bad=other, mix=['Ab: jp aB\naB: .equ $fA\n .db "xY"\n']).items():
            for e, nm in dict(ext3=['in.', sy(3, IDC)], ext2=['in.', sy(2, IDC)], ext4=['in.', sy(4, IDC)], ext1=['in.', S(IDC)], stem3=[sy(3, IDC), '.s'], one=[S(IDC)], pre=[S(IDC), 'rog.asm'], dir=[sy(2, IDC), '/in.s'], suf=['prog_', sy(2, IDC)], dash=['in', S(b'-+=@,~ #%!'), 'x.s']).items(): addp('p_%s_%s' % (w, e), t, t, kw2=dict(infile=T(nm)))
            for e, nm in dict(ext3=['out.', sy(3, IDC)], ext2=['out.', sy(2, IDC)], ext4=['out.', sy(4, IDC)], stem3=[sy(3, IDC), '.hex'], one=[S(IDC)]).items(): addp('o_%s_%s' % (w, e), t, t, kw2=dict(out=T(nm)))
            for k in (33, 65, 129, 200, 255): addp('plen%d_%s' % (k, w), t, t, kw2=dict(infile='x' * (k - 2) + '.s')); addp('olen%d_%s' % (k, w), t, t, kw2=dict(out='x' * (k - 2) + '.h'))
            for k in (2, 3, 5, 10, 20): addp('pdeep%d_%s' % (k, w), t, t, kw2=dict(infile='/'.join(['dir'] * k) + '/in.s'))
        for n, t in every(None, tx, df, cd, sc, pd):
            addp('r_' + n, [t, ' .db "é€",1\nx: jp x\n'], [t, ' .db "é€",1\nx: jp x\n'], kw2=dict(chunk=2))
            addp('q_' + n, [t, ' cls\nt1: jp t1\n'], [t, ' cls\nt1: jp t1\n'], kw2=dict(infile='other/n.asm', out='-', pre=b'x'))
        for k in N(th, 9, 17, 33, 65, 129, 257): t = ''.join('n%d: jp n%d\n' % (i, (i * 5 + 2) % k) for i in range(k)); addp('hm%d' % k, [t], [t], kw2=dict(hash=1)); addp('hd%d' % k, [t, 'n%d: cls\n' % (k // 2)], [t, 'n%d: cls\n' % (k // 2)], kw2=dict(hash=1)); addp('hu%d' % k, [t, ' jp zz\n'], [t, ' jp zz\n'], kw2=dict(hash=1))
    if pid == 'C19':
        for n, t in every(None, *ALLG):
            add('u_' + n, t, ' jp t', h(IDC), h(IDC), '\n'); add('d_' + n, 'ta: tb:\n', t, 't', h(b'abcA'), h(b': x'), ':\n'); add('m_' + n, t, ' x', h(IDC), ' v1\n'); add('i_' + n, t, '.e', h(IDC), ' 1\n'); add('w_' + n, t, ' ld v1, $', h(), h(), h(), '\n'); add('b_' + n, ' .db $', h(), h(), h(), '\n', t)
            if n not in sc: add('o_' + n, t, ' .org $e1', h(), '\n .db 1,2,3\n .org $e1', h(), '\n .db 1\n')
            else: add('o_' + n, t, ' .org $6', h(b'01'), h(), '\n .db 1\n')
        for n, t in every(None, bl): add('s_' + n, ' jp', t, ' t', h(IDC), t, '\n'); add('sm_' + n, t, ' x', h(IDC), t, ' v1\n')
        for k in N(th, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 4097, 70000):
            for q in sorted({0, k // 2, k - 1}): nm = lambda: ['n'] * q + [S(b'abAB_')] + ['n'] * (k - 1 - q); add('nu%d_%d' % (k, q), ' jp ', nm(), '\n'); a = nm(); add('nd%d_%d' % (k, q), a, ': cls\n', a, ':\n'); add('nm%d_%d' % (k, q), ' ', nm(), ' v1\n'); add('ni%d_%d' % (k, q), '.', nm(), ' 1\n')
        for k in N(th, 4, 5, 9, 11, 13, 17): add('clique%d' % k, ' .org $100\n .db 1\n' * (k - 1), ' .org $10', h(), '\n .db 1\n'); add('chain%d' % k, ''.join(' .org %d\n .db 1,2,3\n' % (0x200 + 2 * i) for i in range(k)), ' .org $20', h(), '\n .db 1\n')
        for k in (100, 127, 128, 255, 256, 257, 300): add('pairs%d' % k, ' .db "', 'k' * k, '"\n', ''.join(' .org %d\n .db 1\n' % i for i in range(k - 1)), ' .org %d\n .db ' % (k - 1), h(DIG), '\n')
        for k in N(th, 33, 129, 255, 256, 257, 511, 513, 1025, 2049, 3000): add('big%d' % k, ' .org $100\n .db "', 'k' * k, '"\n .org $', h(), h(), h(), '\n .db 1,2\n')
    if len(J) > n0: p.bounds += '; the same questions in %d large surroundings: runs of up to 70000 lines, blanks and comment characters, names of up to 70000 characters, up to 1025 labels or constants, 1500 instructions, 3000 data items, 800 sections, strings of 4 KB, and texts straddling file offsets up to 65536' % (len(J) - n0)
    return p
def hash_int(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) & 0xffff
    return h
