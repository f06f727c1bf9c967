"""Questions about what diagnostics say."""
import templates as tb
from templates import *
from templates_b import BASES, ERRORS, replaced, inserted, deleted, borrow, hash_pick, U3

# ---------------------------------------------------------------------------------------------- C19
def c19(tier):
    J = []; th = tier == 'thorough'; h = lambda c=HEXL: S(c)
    REF = dict(jp=' jp ', call=' call ', ldi=' ld I, ', se=' se v3, ', sne=' sne v3, ', ld=' ld v3,', add=' add v3, ', rnd=' rnd v3, ', jp0=' jp v0, ', drw=' drw v1, v2, ')
    lay = dict(plain=([], []), defs=(['ab: cls\nAB: .equ 3\nzz_9:\n'], ['ac: ret\n']), com=(['; jp qq\n', S(b' \n\t')], [' ; qq\n']), same=(['p: q: '], ['\np2: cls\n']))
    # undefined labels: the name, as written
    for w, pre in REF.items():
        for n in (1, 2, 3, 4, 6): J.append(src('undef_%s_%d' % (w, n), pre, S(IDS), sy(n - 1, IDC), '\nab: cls\n'))
        for l, (a, b) in lay.items(): J.append(src('undef_%s_%s' % (w, l), a, pre, S(IDS), sy(2, IDC), '\n', b))
        for n in (8, 16, 17, 32, 33, 64, 65, 130, 260): J.append(src('undeflong_%s_%d' % (w, n), pre, S(IDS), 'b' * (n - 3), S(IDC), S(IDC), '\n')); J.append(src('undefmid_%s_%d' % (w, n), pre, 'n' * (n // 2), S(IDC), 'b' * (n - n // 2 - 1), '\n'))
    for k in (1, 2, 3):   # which of several references is undefined
        J.append(src('which%d' % k, 'ta: tb: tc:\n', [[' jp t', S(b'abcdD'), '\n'] for _ in range(k)])); J.append(src('whichmix%d' % k, [[' ld v1, t', S(b'abcdD'), '\n call t', S(b'abx'), '\n'] for _ in range(k)], 'ta: .equ 1\ntb: tc:\n'))
    J.append(src('undef_case', 'Foo: cls\n jp ', S(b'fF'), S(b'oO'), S(b'oO'), '\n')); J.append(src('undef_prefix', 'foo: foo1: cls\n jp foo', S(IDC), '\n')); J.append(src('undef_reg', ' jp v', S(IDC), '\n', ' ld v0, ', S(b'dsv'), S(IDC), '\n'))
    # redefinitions
    for n in (1, 2, 3, 4): nm = [S(IDS)] + sy(n - 1, IDC); J.append(src('dup%d' % n, 'ab: cls\n', nm, ': ret\ncd: ', nm, ': nop\n')); J.append(src('dup_equ%d' % n, nm, ': .equ 4\n nop\n', nm, ': .equ 4\n')); J.append(src('dup_line%d' % n, nm, ': ', nm, ':\n'))
    for n in (8, 17, 33, 65, 130, 260): nm = ['n' * (n // 2), S(IDC), 'b' * (n - n // 2 - 1)]; J.append(src('duplong%d' % n, nm, ': cls\n', nm, ': ret\n'))
    J.append(src('dup_any', 'ta: tb: tc: td:\n', 't', S(b'abcdABe'), ': cls\nt', S(b'abcdABe'), ':\n')); J.append(src('dup_two', [['t', S(b'abcdABe'), ': cls\n'] for _ in range(3)])); J.append(src('dup_and_undef', 'ta: jp t', S(b'abc'), '\nt', S(b'abc'), ': ret\n'))
    J.append(src('dup_reg', [S(b'ivkfb'), ': '], 'i: k: v: f: b: d: s:\n')); J.append(src('dup_case', [S(b'fF'), S(b'oO'), ': cls\n'], [S(b'fF'), S(b'oO'), ': cls\n']))
    # unknown mnemonics and operands that fit no form
    for n in (1, 2, 3, 4): J.append(src('mnem%d' % n, ' ', S(IDS), sy(n - 1, IDC), '\n')); J.append(src('mnem_ops%d' % n, ' cls\n', S(IDS), sy(n - 1, IDC), ' v1, ', S(HEXL), '\n'))
    for n in (5, 7, 8, 9, 16, 33, 65, 130): J.append(src('mnemlong%d' % n, ' ', S(IDS), 'b' * (n - 2), S(IDC), ' v1\n'))
    for m in MNEMONICS:
        for k, ops in enumerate(['', 'v1', '$12', 'I', 'lab', 'v1, v2', 'v1, lab', 'I, I', 'v1, v2, v3', 'v1, v2, 3, 4', '1, 2', '[I], [I]', 'dt, st', 'lab, lab, lab', 'v1, dt, k', 'f, b']):
            J.append(src('form_%s_%d' % (m, k), 'lab: ', [S([c, c ^ 32]) for c in m.encode()], ' ' if ops else '', ops, '\n'))
    for m in MNEMONICS if th else ('ld', 'drw', 'jp', 'shr', 'add'): J.append(src('formsym_' + m, ' ', m, ' ', S(IDC), S(IDC), ', ', S(IDC), '\n')); J.append(src('formsym1_' + m, ' ', m, ' ', S(b'vVidDsk['), S(HEXL + b't'), '\n'))
    # directives
    for n in (1, 2, 3, 4): J.append(src('dir%d' % n, 'x: .', S(IDS), sy(n - 1, IDC), ' 1\n')); J.append(src('dirnoarg%d' % n, ' cls\n.', S(IDS), sy(n - 1, IDC), '\n'))
    for n in (5, 8, 9, 17, 33, 65, 130): J.append(src('dirlong%d' % n, '.', S(IDS), 'b' * (n - 2), S(IDC), ' 1\n'))
    for d in ('org', 'equ', 'db'):
        D = [S([c, c ^ 32]) for c in d.encode()]
        for w, a in dict(none='', str='"ab"', two='1, 2', strnum='"a", 5', numstr='1, "b"', three='1,2,3', estr='""').items():
            if d == 'db' and w != 'none': continue
            J.append(src('dirarg_%s_%s' % (d, w), ' cls\nx: .', D, ' ', a, '\n'))
    # values that do not fit
    val = dict(hex=lambda: ['$', h(), h(), h()], hexu=lambda: ['#', sy(3, HEX)], dec=lambda: sy(4, DIG), dec3=lambda: sy(3, DIG), bin=lambda: ['%', sy(12 if th else 10, b'01')], lead=lambda: ['00', sy(3, DIG)])
    for w in ('se', 'sne', 'ld', 'add', 'rnd', 'drw'):
        for v, f in val.items():
            if not th and v in ('bin', 'lead') and w in ('sne', 'rnd'): continue
            J.append(src('wide_%s_%s' % (w, v), REF[w], f(), '\n'))
        J.append(src('widelab_' + w, 'kk: .equ $', h(), h(), h(), '\n', REF[w], 'kk\n')); J.append(src('wideaddr_' + w, REF[w], 'kk\n .org $', h(), h(), h(), '\nkk:\n')); J.append(src('widetwo_' + w, REF[w], '$', h(b'01'), h(b'0f'), h(), '\n', REF[w], '$', h(b'01'), h(b'0e'), h(b'0d'), '\n'))
    for v, f in val.items(): J.append(src('db_' + v, ' .db ', f(), '\n')); J.append(src('dbmid_' + v, ' .db 1, "é", ', f(), ', 2\n'))
    J.append(src('dbwhich', ' .db ', [['$', h(b'012'), 'f', h(b'0f'), ', '] for _ in range(3)], '1\n')); J.append(src('dbwhich2', ' .db 7, $', h(b'012'), h(), h(b'07'), '\n .db 300\n'))
    # characters outside the language and literals out of range
    for w, pre in dict(first='', op=' jp ', arg=' .db 1, ', after=' cls ', dirn=' .', lab='a', second=' ld v1, ').items():
        J.append(src('stray_' + w, pre, S(ASCII), '\n')); J.append(src('stray_u2_' + w, pre, S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), '\n')); J.append(src('stray_u3_' + w, pre, U3(), '\n')); J.append(src('stray_u4_' + w, pre, b'\xf0\x9f', S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), '\n cls\n'))
        for n in (4, 5, 6): J.append(src('lit%d_%s' % (n, w), pre, sy(n, DIG), '\n'))
        for n in (10, 20, 21, 40, 130): J.append(src('litlong%d_%s' % (n, w), pre, S(DIG), '7' * (n - 3), sy(2, DIG), '\n'))
    # overlap reports
    def blk(a, n): return [' .org $', a, '\n', [' .db "%s"\n' % ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ' * 10)[:n]] if n else []]
    for a in (0, 1, 2, 16, 33):
        for b in (0, 1, 3, 16, 33): J.append(src('ov_%d_%d' % (a, b), blk(['2', h(b'0123'), h()], a), blk(['2', h(b'0123'), h()], b)))
    J.append(src('ov12', ' .org $', h(), h(), h(), '\n .db 1,2\n .org $', h(), h(), h(), '\n .db 3\n')); J.append(src('ovfix', ' .org $400\n .db "', 'x' * 100, '"\n .org $', h(), h(), h(), '\n .db 3,4,5\n')); J.append(src('ovlow', ' cls\n ret\n .org $00', h(), '\n .db 1,2\n'))
    for n, (x, y, z) in enumerate([(4, 4, 4), (1, 1, 1), (16, 1, 8), (2, 0, 2), (0, 3, 3), (3, 3, 0), (1, 16, 1), (8, 2, 16)]): J.append(src('ov3_%d' % n, blk(['10', h()], x), blk(['1', h(b'01'), h()], y), blk(['1', h(b'01'), h(b'048c')], z)))
    for n, ws in enumerate([(2, 2, 2, 2), (1, 3, 1, 3), (16, 1, 16, 1), (4, 0, 4, 0)]): J.append(src('ov4_%d' % n, blk(['10', h(b'0246')], ws[0]), blk(['1', h(b'01'), h(b'048c')], ws[1]), blk(['1', h(b'01'), h(b'08')], ws[2]), blk(['1', h(b'012'), '0'], ws[3])))
    for k in (3, 4, 5, 6): J.append(src('ovsame%d' % k, [blk(['30', h(b'05')], 4) for _ in range(k)])); J.append(src('ovstep%d' % k, [blk(['30%x' % (2 * i)], 3) for i in range(k)], blk(['3', h(b'01'), h()], 2)))
    J.append(src('ovtop', blk(['f', h(b'ef'), h()], 6), blk(['f', h(b'ef'), h()], 3))); J.append(src('ovbottom', blk(['00', h()], 3), blk(['00', h()], 5))); J.append(src('ovins', ' .org $20', h(), '\n cls\n ret\n .org $20', h(), '\n nop\n jp x\nx:\n')); J.append(Job('ovstd', Run(T(blk(['20', h()], 5), blk(['20', h()], 5)), out='-')))
    J.append(src('ovadj', blk(['200'], 8), blk(['208'], 8), blk(['2', h(b'01'), h()], 4))); J.append(src('ovsplit', ' .org $200\n .db 1,2\n .org $202\n .db 3,4\n .org $20', h(), '\n .db 5,6\n'))
    for w in ('p.s', 'dir/lab.asm', 'foo'): J.append(Job('path_' + w.replace('/', '_'), Run(T(' jp ', S(b'lf'), S(b'ao'), S(b'bo'), '\n'), infile=w)))
    # corrupted small programs
    for g, t in list(BASES.items()) + [('e_' + k, v) for k, v in ERRORS.items() if isinstance(v, str)]: replaced(J, g, t, ASCII); inserted(J, g, t, PRINT)
    borrow(J, ['C02', 'C04', 'C05', 'C06', 'C07', 'C08'], 'quick', NAME, None if th else lambda j: hash_pick(j.name, 5))
    return Prop(19, NAME, J, 'names of 1 to 6 characters with every character symbolic and of up to 260 characters with one to three symbolic, in every referring form and position; every mnemonic with 16 operand lists and symbolic operands; directives with symbolic names and wrong arguments; values in every notation, all digits symbolic; two sections with all 12 bits of both origins symbolic, 3 to 6 sections with symbolic origins; corrupted small programs')
NEW = dict(C19=c19)
