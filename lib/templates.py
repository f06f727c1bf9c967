"""The questions put to the solver, per property: source/command-line templates with symbolic bytes."""
import itertools
from vlib import *

DIG = b'0123456789'; LOW = bytes(range(97, 123)); UPP = bytes(range(65, 91)); ALPHA = LOW + UPP; IDC = ALPHA + DIG + b'_'; IDS = ALPHA + b'_'
HEX = DIG + b'abcdefABCDEF'; HEXL = DIG + b'abcdef'; BIN = b'01.'; ALL = bytes(range(256)); ASCII = bytes(range(128)); PRINT = bytes(range(32, 127)); TEXT = PRINT + b'\t\r'
WS = b' \t\r\x0b\x0c'
def hx(n=1, c=HEX): return [S(c) for _ in range(n)]
def sy(n, c): return [S(c) for _ in range(n)]

class Prop:
    def __init__(self, num, mask, jobs, bounds, budget=300, assume=(), crate='c8s', joblimit=90):
        self.joblimit = joblimit; self.num, self.mask, self.jobs, self.bounds, self.budget, self.assume, self.crate = num, mask, jobs, bounds, budget, list(assume), crate

# documented forms: mnemonic, operand list; x y registers, a 12-bit, n 8-bit, h 4-bit operand
FORMS = [('cls', ''), ('ret', ''), ('nop', ''), ('trap', ''), ('trapret', ''), ('jp', 'a'), ('call', 'a'), ('se', 'x n'), ('sne', 'x n'), ('se', 'x y'), ('ld', 'x n'), ('add', 'x n'), ('ld', 'x y'), ('or', 'x y'),
         ('and', 'x y'), ('xor', 'x y'), ('add', 'x y'), ('sub', 'x y'), ('shr', 'x'), ('subn', 'x y'), ('shl', 'x'), ('sne', 'x y'), ('ld', 'I a'), ('jp', 'V0 a'), ('rnd', 'x n'), ('drw', 'x y h'), ('skp', 'x'), ('sknp', 'x'),
         ('ld', 'x DT'), ('ld', 'x K'), ('ld', 'DT x'), ('ld', 'ST x'), ('add', 'I x'), ('ld', 'F x'), ('ld', 'B x'), ('ld', '[I] x'), ('ld', 'x [I]'), ('ld', 'I [I]')]
MNEMONICS = sorted(set(m for m, _ in FORMS))
def form_name(m, ops): return (m + '_' + ops.replace(' ', '_').replace('[I]', 'II')).rstrip('_')
def stmt(m, ops, val, x=None, y=None):
    """Statement template; val(kind) gives the numeric operand."""
    out = [m]; sep = ' '
    for o in ops.split():
        out.append(sep); sep = ', '
        if o == 'x': out += ['V', x or S(HEX)]
        elif o == 'y': out += ['v', y or S(HEX)]
        elif o in 'anh': out += list(val(o))
        else: out.append(o)
    return out + ['\n']
def numeric(ops): return [o for o in ops.split() if o in 'anh']
HL = dict(a=3, n=2, h=1); DL = dict(a=4, n=3, h=2); BL = dict(a=12, n=8, h=4)

def src(name, *parts, **kw):
    mask = kw.pop('mask', None); steps = kw.pop('steps', None); return Job(name, Run(T(*parts), **kw), mask=mask, steps=steps)

# ---------------------------------------------------------------------------------------------- C01
def c01(tier):
    J = []
    for m, ops in FORMS:
        n = form_name(m, ops)
        if not numeric(ops):
            J.append(src(n, ' ', stmt(m, ops, None)))
            J.append(src(n + '_U', '\t', stmt(m.upper(), ops.lower().replace('x', 'x').replace('y', 'y'), None)))
        else:
            o = numeric(ops)[0]
            J.append(src(n + '_hex', ' ', stmt(m, ops, lambda k: ['$'] + hx(HL[k]))))
            J.append(src(n + '_hash', ' ', stmt(m.upper(), ops, lambda k: ['#'] + hx(HL[k]))))
            J.append(src(n + '_dec', ' ', stmt(m, ops, lambda k: sy(DL[k], DIG))))
            J.append(src(n + '_bin', ' ', stmt(m, ops, lambda k: ['%', '0' * (BL[k] - 4)] + sy(4, b'01'))))
            if o == 'a': J.append(src(n + '_binhi', ' ', stmt(m, ops, lambda k: ['%'] + sy(4, b'01') + ['.' * 8])))
            J.append(src(n + '_equ', 'val: .equ $', hx(3, HEXL), '\n ', stmt(m, ops, lambda k: ['val'], S(DIG), S(DIG))))
            J.append(src(n + '_equfwd', ' ', stmt(m, ops, lambda k: ['val_1'], S(DIG), S(DIG)), 'val_1: .equ ', sy(4, DIG), '\n'))
            J.append(src(n + '_addr', ' .org $', hx(3, DIG), '\nhere:\n ', stmt(m, ops, lambda k: ['here'], S(DIG), S(DIG))))
            J.append(src(n + '_fwdaddr', ' .org $', hx(2, DIG), '\n ', stmt(m, ops, lambda k: ['there'], S(DIG), S(DIG)), ' cls\n nop\nthere: .db 1\n'))
    # all forms in one program, at a symbolic place, sharing the operand symbols
    x, y = S(DIG), S(b'abcdef'); d = [S(DIG) for _ in range(3)]
    v = lambda k: ['$'] + d[:HL[k]]
    prog = [stmt(m, ops, v, x, y) for m, ops in FORMS]
    J.append(src('all_forms', prog)); J.append(src('all_forms_rev', prog[::-1], ' cls\n'))
    J.append(src('all_forms_org', ' .org $', S(b'0123456789abcde'), S(HEXL), S(HEXL), '\n', prog))
    lab = lambda k: ['l' + k]
    prog = ['la: .equ $', d, '\nln: .equ ', d[:2], '\nlh: .equ ', d[:1], '\n'] + [stmt(m, ops, lab, x, y) for m, ops in FORMS]
    J.append(src('all_forms_labels', prog))
    # pairs: the encoding of a statement does not depend on its neighbours
    for i, (m, ops) in enumerate(FORMS):
        m2, ops2 = FORMS[(i * 7 + 3) % len(FORMS)]
        J.append(src('pair_' + form_name(m, ops), ' ', stmt(m, ops, v, x, y), ' ', stmt(m2, ops2, v, y, x), ' ', stmt(m, ops, v, y, x)))
    if tier == 'thorough':
        for m, ops in FORMS:
            n = form_name(m, ops)
            if numeric(ops):
                J.append(src(n + '_binfull', ' ', stmt(m, ops, lambda k: ['%'] + sy(BL[k], BIN), S(DIG), S(DIG))))
                J.append(src(n + '_labelname', S(IDS), 'bel: .equ $', hx(3, HEXL), '\n ', stmt(m, ops, lambda k: [S(IDS), 'bel'], S(HEX), S(HEX))))
        for (m, o), (m2, o2) in itertools.product(FORMS, FORMS):
            J.append(src('pp_%s__%s' % (form_name(m, o), form_name(m2, o2)), ' ', stmt(m, o, v, x, y), ' ', stmt(m2, o2, v, y, x)))
    return Prop(1, REJECT_GOOD | BYTES, J, 'single statements and programs of up to 39 statements over every documented form; every register digit (both cases), every hexadecimal operand of the field width, decimal operands up to 4 digits, binary operands with 4 (thorough: all) symbolic bits, operands through constants and through addresses at symbolic origins')


# ---------------------------------------------------------------------------------------------- C02
KINDS = ['v3', '$12', 'I', '[I]', 'dt', 'ST', 'K', 'F', 'b', 'lab']
def c02(tier):
    J = []; th = tier == 'thorough'
    # operand values in fields of 8 and 4 bits
    for m, ops in FORMS:
        n = form_name(m, ops); o = [k for k in numeric(ops) if k in 'nh']
        if not o: continue
        J.append(src(n + '_hex3', ' ', stmt(m, ops, lambda k: ['$'] + hx(3), S(HEXL), S(DIG))))
        J.append(src(n + '_hash2', ' ', stmt(m, ops, lambda k: ['#'] + hx(2), S(HEXL), S(DIG))))
        J.append(src(n + '_dec4', ' ', stmt(m, ops, lambda k: sy(4, DIG), S(DIG), S(DIG))))
        J.append(src(n + '_bin12', ' ', stmt(m, ops, lambda k: ['%'] + sy(4, b'01') + ['0'] * 4 + sy(2, b'01') + ['11'], S(DIG), S(DIG))))
        J.append(src(n + '_equ', 'k: .equ $', hx(3, HEXL), '\nkk: .equ $', hx(3, HEXL), '\n ', stmt(m, ops, lambda k: ['kk'], S(DIG), S(DIG))))
        J.append(src(n + '_equfwd', ' ', stmt(m, ops, lambda k: ['kk'], S(DIG), S(DIG)), 'kk: .equ ', sy(4, DIG), '\n'))
        J.append(src(n + '_addr', ' .org $', hx(3, HEXL), '\nhere: ', stmt(m, ops, lambda k: ['here'], S(DIG), S(DIG))))
        J.append(src(n + '_second', ' ', stmt(m, ops, lambda k: '1', '0', '1'), ' ', stmt(m, ops, lambda k: ['$'] + hx(3), S(DIG), S(DIG))))
    # operands of every kind, for every mnemonic: one operand symbolic, then pairs
    op = lambda: [S(b'vVidDsSkbfFxI_1$'), S(b'0123fAtT _')]
    full = lambda: [S(IDS + b'$%#["0123456789'), S(IDC + b' ]"')]
    D = 'lab: .equ 1\nx0: .equ 2\n'
    for m in MNEMONICS + ['xyz', 'ldi', 'db', 'v0', 'a']:
        J.append(src('%s_none' % m, D, ' ', m, '\n'))
        J.append(src('%s_1' % m, D, ' ', m, ' ', full(), '\n'))
        J.append(src('%s_1ind' % m, D, ' ', m, ' [', S(PRINT), ']\n'))
        for k in KINDS:
            J.append(src('%s_%s_x' % (m, k), D, ' ', m, ' ', k, ', ', op(), '\n'))
            J.append(src('%s_x_%s' % (m, k), D, ' ', m, ' ', op(), ',', k, '\n'))
        J.append(src('%s_3' % m, D, ' ', m, ' v', S(IDC), ', v', S(IDC), ', ', op(), '\n'))
        J.append(src('%s_3b' % m, D, ' ', m, ' ', op(), ', v1, ', S(b'0123456789a'), S(b'0123456789 '), '\n'))
        J.append(src('%s_3c' % m, D, ' ', m, ' v1, ', op(), ', 3\n'))
        J.append(src('%s_4' % m, D, ' ', m, ' v', S(HEXL), ', v2, 3, ', op(), '\n'))
        r = lambda: ['v', S(HEXL)]
        for w, o in dict(rr=[r(), ',', r()], rrr=[r(), ',', r(), ',', r()], rn=[r(), ',$', hx(2)], nr=['$', hx(1), ',', r()], nn=['$', hx(1), ',', S(DIG)], rrn=[r(), ',', r(), ',', S(DIG), S(b'0123456789 ')], rnn=[r(), ',', S(DIG), ',', S(DIG)], rrrr=[r(), ',v2,', r(), ',', r()], il=['I, lab, ', r()], ir=['I,', r(), ',', r()], rl=[r(), ', lab, ', r()], nnn=['lab, lab, ', S(DIG)]).items(): J.append(src('%s_%s' % (m, w), D, ' ', m, ' ', o, '\n'))
        J.append(src('%s_5' % m, D, ' ', m, ' v1, v2, 3, 4, 5\n'))
        good = {'cls': [], 'ret': [], 'nop': [], 'trap': [], 'trapret': [], 'jp': ['5'], 'call': ['5'], 'shr': ['v1'], 'shl': ['v1'], 'skp': ['v1'], 'sknp': ['v1'], 'drw': ['v1', 'v2', '3'], 'rnd': ['v1', '7']}.get(m, ['v1', 'v2'])
        for k in (6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 128, 255, 256, 257):
            if not (th or k in (8, 16, 32, 64, 256)): continue
            r2 = [S(HEXL)]; J.append(src('%s_tail%d' % (m, k), ' ', m, ' ', ', '.join((good * k)[:k] + good) if good else ', '.join(['v1'] * k), ', v', r2, '\n')); J.append(src('%s_head%d' % (m, k), ' ', m, ' v', r2, ', ', ', '.join(['v3'] * (k - 1) + good), '\n'))
    # JP Vx,nnn exists for V0 only
    J.append(src('jp_vx', ' jp v', S(IDC), ', $', hx(3, HEXL), '\n')); J.append(src('jp_vx_lab', 'l: jp V', S(IDC), ', l\n'))
    # mnemonics
    for n in range(1, 5):
        for ops in ['', 'v1', 'v1, v2', 'v1, 7', '$123', 'v1, v2, 3', 'I, $123']:
            J.append(src('mn%d_%s' % (n, ops.replace(' ', '')), ' ', S(ALPHA if th or n < 4 else LOW), *(sy(n - 1, LOW + b'_' if not th else IDC)), ' ', ops, '\n'))
    for m in MNEMONICS:
        for i in range(len(m) + 1):
            for ops in ['', 'v1', 'v1, v2', 'v1, 7', '5', 'v1, v2, 3'] if th else [{'cls': '', 'ret': '', 'nop': '', 'trap': '', 'trapret': '', 'jp': '5', 'call': '5', 'shr': 'v1', 'shl': 'v1', 'skp': 'v1', 'sknp': 'v1', 'drw': 'v1, v2, 3', 'rnd': 'v1, 7'}.get(m, 'v1, v2')]:
                if i < len(m): J.append(src('mut_%s_%d_%s' % (m, i, ops.replace(' ', '')), ' ', m[:i], S(IDC if i else IDS), m[i + 1:], ' ', ops, '\n'))
                J.append(src('ins_%s_%d_%s' % (m, i, ops.replace(' ', '')), ' ', m[:i], S(IDC if i else IDS), m[i:], ' ', ops, '\n'))
    return Prop(2, A_FORM | A_FIELD | FAILTOUCH, J, 'every mnemonic with 0 to 5 operands, operands of two symbolic characters next to operands of every kind; mnemonics of up to 4 symbolic letters and every documented mnemonic with one character replaced or inserted; operand values: all 3-digit hexadecimal, all 4-digit decimal, constants and addresses of all 12 bits')


# ---------------------------------------------------------------------------------------------- C03
def c03(tier):
    J = []; th = tier == 'thorough'
    CTX = dict(jp=lambda l: [' jp ', l, '\n'], db=lambda l: [' .db ', l, '\n'], org=lambda l: [' .org ', l, '\n .db 7\n'], equ=lambda l: ['kk: .equ ', l, '\n ld I, kk\n'], ld=lambda l: [' ld v1,', l, '\n'],
               db2=lambda l: [' .db 1,', l, ',2\n'], drw=lambda l: [' drw v1,v2,', l, '\n'], fwd=lambda l: [' call q\nq: .EQU ', l, '\n'], glued=lambda l: [' .db ', l, ';c\n'], two=lambda l: [' jp ', l, '\n jp ', l, '\n'])
    for c, f in CTX.items():
        for n in range(1, 6): J.append(src('dec%d_%s' % (n, c), f(sy(n, DIG))))
        for n in range(1, 4):
            J.append(src('hex%d_%s' % (n, c), f(['$'] + hx(n)))); J.append(src('hash%d_%s' % (n, c), f(['#'] + hx(n))))
        for n in (1, 2, 4): J.append(src('bin%d_%s' % (n, c), f(['%'] + sy(n, BIN))))
        J.append(src('bin8_%s' % c, f(['%'] + sy(8, BIN if th else b'01'))))
        J.append(src('bin12hi_%s' % c, f(['%'] + sy(5, b'01') + ['.0.1.1.'])))
        J.append(src('bin13_%s' % c, f(['%'] + sy(4, b'01') + ['0' * 9])))
        for z in (1, 4, 16, 30): J.append(src('zeros%d_%s' % (z, c), f(['0' * z] + sy(4, DIG))))
    for c in ('jp', 'db', 'org', 'equ'):
        f = CTX[c]
        J.append(src('hexend_%s' % c, f(['$'] + hx(2) + [S(TEXT)])))
        J.append(src('decend_%s' % c, f(sy(2, DIG) + [S(TEXT)])))
        J.append(src('binend_%s' % c, f(['%'] + sy(2, BIN) + [S(TEXT)])))
        J.append(src('hex4_%s' % c, f(['$'] + hx(4, HEXL)), mask=A_LIT | A_SYNTAX | A_DB | A_EQU | A_MEM | REJECT_GOOD | BYTES))
        for z in (1, 2, 5, 13): J.append(src('hexz%d_%s' % (z, c), f([S(b'$#'), '0' * z] + hx(3)), mask=A_LIT | A_SYNTAX | A_DB | A_EQU | A_MEM | REJECT_GOOD | BYTES))
        # lengths past the machine word: a leading symbolic digit in front of symbolic low digits
        for n in (6, 8, 10, 11, 16, 19, 20, 21, 24, 39, 40) + (tuple(range(22, 80)) if th else ()):
            J.append(src('declong%d_%s' % (n, c), f([S(DIG)] + ['0' * (n - 5)] + sy(4, DIG))))
        for n in (14, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 72, 96, 128, 129) + (tuple(range(67, 96)) if th else ()):
            J.append(src('binlong%d_%s' % (n, c), f(['%', S(BIN)] + ['0' * (n - 5)] + sy(4, b'01'))))
            J.append(src('bintop%d_%s' % (n, c), f(['%', S(b'01'), S(b'01')] + ['.' * (n - 2)])))
        # numbers just above powers of two: 2^16, 2^32, 2^64 plus a symbolic low part
        for b in (16, 32, 63, 64, 128):
            t = str(1 << b); J.append(src('decpow%d_%s' % (b, c), f([t[:-4]] + sy(4, DIG))))
        J.append(src('dec64_%s' % c, f(['18446744073709'] + sy(6, DIG))))
    if th:
        for c, f in CTX.items():
            J.append(src('bin12_%s' % c, f(['%'] + sy(12, b'01')))); J.append(src('bin14_%s' % c, f(['%'] + sy(14, b'01')))); J.append(src('dec7_%s' % c, f(sy(7, DIG))))
            J.append(src('dec20_%s' % c, f(sy(20, b'019'))))
    else: J.append(src('bin12_jp', CTX['jp'](['%'] + sy(12, b'01'))))
    return Prop(3, A_LIT | REJECT_GOOD | BYTES, J, 'decimal literals of up to 5 (thorough 7) symbolic digits, with up to 30 leading zeros and with lengths up to 40 (thorough 80) digits; hexadecimal literals of 1 to 4 symbolic digits with both prefixes; binary literals of up to 12 (thorough 14) symbolic bits and lengths up to 129 digits; in every context that takes a number')

# ---------------------------------------------------------------------------------------------- C04
def c04(tier):
    J = []; th = tier == 'thorough'; o3 = lambda: ['$'] + [S(HEXL) for _ in range(3)]
    LREF = [('jp', 'a'), ('call', 'a'), ('ld', 'I a'), ('jp', 'V0 a')]
    NREF = [('se', 'x n'), ('sne', 'x n'), ('ld', 'x n'), ('add', 'x n'), ('rnd', 'x n'), ('drw', 'x y h')]
    for m, ops in LREF + NREF:
        n = form_name(m, ops); lo = (m, ops) in NREF
        pre = [' .org $0', S(HEXL) if ops != 'x y h' else '0', S(HEXL), '\n'] if lo else [' .org ', o3(), '\n']
        for w, st in (('back', lambda L: [pre, L, ': .db 1,2,3\n ', stmt(m, ops, lambda k: [L], S(DIG), '2')]), ('fwd', lambda L: [pre, ' ', stmt(m, ops, lambda k: [L], S(DIG), '2'), ' cls\n', L, ': ret\n']), ('end', lambda L: [pre, ' ', stmt(m, ops, lambda k: [L], S(DIG), '2'), L, ':\n']),
                      ('self', lambda L: [pre, L, ': ', stmt(m, ops, lambda k: [L], S(DIG), '2')]), ('undef', lambda L: [pre, ' ', stmt(m, ops, lambda k: [L, S(IDC)], S(DIG), '2'), L, '1: cls\n'])):
            J.append(src('%s_%s' % (n, w), st('lbl')))
    # what the counter passes over before the label
    d2 = lambda: S(DIG)
    for i, (w, parts) in enumerate([('ins', [' cls\n'] * 3), ('db', [' .db 1,2,3,4,5\n']), ('str', [' .db "ab', S(PRINT.replace(b'"', b'').replace(b'\\', b'')), 'd"\n']), ('utf8', [' .db "\xc3\xa9'.encode('latin1'), '"\n', ' .db "'.encode(), b'\xe2\x82\xac', '",0\n']), ('esc', [' .db "a\\', S(PRINT), 'z"\n']), ('empty', [' .db ""\n']),
                                ('mixed', [' .db 1,"two",3\n jp $123\n .db "x"\n']), ('equ', ['k: .equ ', o3(), '\n cls\n']), ('label', ['other:\n cls\nmore: ret\n']), ('org', [' .org ', o3(), '\n']), ('orgorg', [' .org $300\n cls\n .org $', d2(), d2(), '0\n .db 9\n']), ('odd', [' .db 1\n cls\n .db 2\n']), ('big', [' .db "' + 'x' * 200 + '"\n']),
                                ('comment', ['; x: y\n ; cls\n\n']), ('longdb', [' .db ' + ','.join(str(j % 256) for j in range(120)) + '\n'])]):
        J.append(src('after_' + w, ' ld I, tgt\n', parts, 'tgt: ret\n call tgt\n'))
        J.append(src('afterorg_' + w, ' .org $', S(b'012345678'), S(HEXL) if w not in ('big', 'longdb') else '3', S(HEXL) if w not in ('big', 'longdb') else '7', '\n ld I, tgt\n', parts, 'tgt: .db 5\n call tgt\n jp tgt2\ntgt2:\n'))
        J.append(src('between_' + w, 'a:\n', parts, 'bb: jp a\n', ' jp bb\n jp c\n', parts if w not in ('equ', 'label') else '', 'c: jp a\n'))
    # names
    for n in (1, 2, 3) + ((4,) if th else ()):
        a, b = [[S(IDS if i == 0 else IDC) for i in range(n)] for _ in range(2)]
        J.append(src('names%d' % n, a, ': cls\n', ' jp ', b, '\n'))
        J.append(src('names%d_fwd' % n, ' jp ', b, '\n', a, ': cls\n'))
        J.append(src('dup%d' % n, a, ': cls\n', b, ': ret\n'))
        J.append(src('dupequ%d' % n, a, ': .equ 1\n', b, ': .equ 1\n'))
        J.append(src('dupsame%d' % n, a, ': cls\n nop\n', b, ':\n', ' jp ', a, '\n'))
        J.append(src('dupmix%d' % n, a, ': .equ 5\n cls\n', b, ': jp ', a, '\n jp ', b, '\n'))
        J.append(src('lens%d' % n, a, ': cls\n', b, 'x: jp ', a, '\n jp ', b, 'x\n'))
    for nm in ['start', 'L1', '_x', 'cls', 'jp', 'v', 'vg', 'v0x', 'V00', 'dtx', 'ii', 'kk', 'a_b_c', 'org', 'db', 'equ', 'x' * 40, 'x' * 100, 'ab' * 150]:
        J.append(src('name_' + nm[:12] + str(len(nm)), ' .org $', S(DIG), 'f3\n jp ', nm, '\n', nm, ': call ', nm, '\n', nm[:-1] + S_last(nm), ':\n'))
        J.append(src('namec_' + nm[:12] + str(len(nm)), nm, ': cls\n jp ', nm[:len(nm) // 2], S(IDC), nm[len(nm) // 2 + 1:], '\n'))
    J.append(src('undef_only', ' jp ', sy(3, IDS), '\n')); J.append(src('undef_other_case', 'Loop: cls\n jp ', S(b'lL'), S(b'oO'), S(b'oO'), S(b'pP'), '\n'))
    J.append(src('dup_case', 'Loop: cls\n', S(b'lL'), S(b'oO'), S(b'oO'), S(b'pP'), ': ret\n jp Loop\n'))
    for q in (0, 1, 2, 3):      # redefinition far apart, first, last and with the same value
        J.append(src('dup_far%d' % q, 'a: cls\nb: ret\nc: .equ 3\nd:\n', [' nop\n' * 5], ['a', 'b', 'c', 'd'][q], S(IDC), ': ret\n', ['a', 'b', 'c', 'd'][q], ': nop\n'))
        J.append(src('dup_sym%d' % q, 'a0: cls\nb1: ret\nc2: .equ 3\nd3:\n nop\n', S(b'abcdexyz'), S(DIG), [':', ': .equ 3', ': ret', ': .org 5'][q], '\n'))
    # two labels at one place, label before an origin, label at the end, origins in descending order
    J.append(src('stacked', ' .org ', o3(), '\na: bb:\nc:\n jp a\n jp bb\n jp c\n'))
    J.append(src('before_org', ' cls\na: .org ', o3(), '\nbb: jp a\n jp bb\n'))
    J.append(src('before_org2', ' .org $', S(DIG), S(HEXL), '0\na:\n .org $', S(b'abcde'), S(HEXL), '1\nbb: ld I,a\n ld I,bb\n ld I, c\nc:\n'))
    J.append(src('desc', ' .org $8', S(HEXL), '0\na: jp bb\n .org $2', S(HEXL), '0\nbb: jp a\nc: jp c\n'))
    J.append(src('orgs3', ' .org $2', S(HEXL), '0\na: jp c\n .org $3', S(HEXL), '4\nbb: jp a\n .org $4', S(HEXL), '7\nc: jp bb\nd: call d\n'))
    J.append(src('top', ' .org $ff', S(HEXL), '\nx: jp x\n')); J.append(src('toplabel', ' .org $f', S(b'ef'), S(HEXL), '\n cls\nx:\n .org 0\n jp x\n'))
    J.append(src('page', ' .org $', S(HEXL), 'f', S(b'bcdef'), '\n jp x\n jp x\nx: call x\n'))
    for k in (10, 40, 130) + ((400,) if th else ()):
        body = ''.join(' .db %d\nlab%d: jp lab%d\n' % (i & 255, i, (i * 7 + 3) % k) for i in range(k))
        J.append(src('many%d' % k, ' .org $', S(b'012'), S(HEXL) if k < 40 else '0', '0\n', body) if k < 100 else src('many%d' % k, body, ' jp lab', S(DIG), '\n')); J.append(src('manydup%d' % k, body, 'lab', S(DIG), ': cls\n')); J.append(src('manyundef%d' % k, body, ' jp lab', S(DIG), S(IDC), '\n'))
    return Prop(4, A_LABEL | REJECT_GOOD | BYTES, J, 'programs of up to 400 statements and 130 (thorough 400) labels; every label-taking form, reference before/after/at/past the definition; symbolic origins (12 bits), symbolic names of up to 3 (thorough 4) characters and names of up to 300 characters; statements of every kind between definition and reference')
def S_last(nm): return 'Z' if nm[-1:] != 'Z' else 'Y'

# ---------------------------------------------------------------------------------------------- C05
def c05(tier):
    J = []; th = tier == 'thorough'; o3 = lambda: ['$'] + [S(HEXL) for _ in range(3)]
    LITS = dict(hex=o3, hash=lambda: ['#'] + hx(3), dec=lambda: sy(4, DIG), bin=lambda: ['%'] + sy(6, BIN) + ['010101'], hex1=lambda: ['$'] + hx(1))
    for w, l in LITS.items():
        J.append(src('back_' + w, 'kk: .equ ', l(), '\n jp kk\n ld I,kk\n')); J.append(src('fwd_' + w, ' call kk\n jp V0,kk\n cls\nkk: .EQU ', l(), '\n ret\n'))
        J.append(src('nextline_' + w, 'kk:\n\n ; c\n .equ ', l(), '\n jp kk\n')); J.append(src('mid_' + w, ' .org $', S(DIG), S(HEXL), S(HEXL), '\n cls\nkk: .equ ', l(), '\nm: jp m\n jp kk\nn: jp n\n'))
    J.append(src('nn_forms', 'kk: .equ $', S(b'01'), hx(2, HEXL), '\n ld v1,kk\n add v2,kk\n se v3,kk\n sne v4,kk\n rnd v5,kk\n')); J.append(src('n_form', 'kk: .equ ', sy(2, DIG), '\n drw v1,v2,kk\n'))
    J.append(src('neighbours', 'a: kk: .equ ', o3(), '\nbb: cls\n jp a\n jp kk\n jp bb\n')); J.append(src('neighbours2', ' nop\na: bb: c: .equ ', o3(), '\n jp a\n jp bb\n jp c\n'))
    J.append(src('two', 'a: .equ ', o3(), '\nbb: .equ ', o3(), '\n jp a\n jp bb\n')); J.append(src('three', 'a: .equ $1', S(HEXL), '0\n cls\nbb: .equ $2', S(HEXL), '0\nx: .db 1\nc: .equ $3', S(HEXL), '0\n jp a\n jp bb\n jp c\n jp x\n'))
    J.append(src('then_org', 'kk: .equ ', o3(), '\n .org $2', S(HEXL), '0\n jp kk\nh: jp h\n')); J.append(src('org_then', ' .org $2', S(HEXL), '0\nkk: .equ ', o3(), '\n .db 1\nh: jp h\n jp kk\n')); J.append(src('between_data', ' .db 1,2\nkk: .equ ', o3(), '\n .db 3,4\n jp kk\n'))
    J.append(src('at_top', ' .org $ff', S(HEXL), '\nkk: .equ ', o3(), '\n .db 1\n')); J.append(src('unused', 'kk: .equ ', o3(), '\n')); J.append(src('unused2', ' cls\nkk: .equ ', o3(), '\n ret\n')); J.append(src('last', ' jp kk\n cls\nkk: .equ ', o3(), '\n'))
    J.append(src('same_as_origin', ' .org $200\nkk: .equ $20', S(HEXL), '\n jp kk\nj: jp j\n'))
    J.append(src('redefine', 'kk: .equ ', o3(), '\nkk: .equ ', o3(), '\n jp kk\n', mask=A_EQU | A_LABEL | BYTES)); J.append(src('redefine_addr', 'kk: .equ 5\n cls\n', S(b'kjK'), 'k: ret\n jp kk\n', mask=A_LABEL | BYTES | REJECT_GOOD))
    # misplaced or malformed
    for w, pre in dict(first='', ins=' cls\n', db=' .db 1\n', org=' .org $200\n', comment='; c\n', labins='kk: cls\n', labdb='kk: .db 1\n', laborg='kk: .org 3\n', twice='kk: .equ 1\n', lab2='kk: m: .equ 2\n').items():
        J.append(src('lone_' + w, pre, ' .equ ', o3(), '\n cls\n')); J.append(src('lone_%s_dec' % w, pre, ' .EQU ', sy(3, DIG), '\n'))
    for w, arg in dict(none=[], str=['"', S(PRINT), '"'], strnum=['"1"'], two=[sy(1, DIG), ',', sy(1, DIG)], three=['1,2,3'], numstr=['1,"a"'], strs=['"",""'], big=sy(5, DIG), big4=['4', S(DIG), S(DIG), S(DIG)], emptystr=['""']).items():
        J.append(src('arg_' + w, 'kk: .equ ', arg, '\n cls\n', mask=A_EQU | A_LIT | BYTES | REJECT_GOOD)); J.append(src('arguse_' + w, 'kk: .equ ', arg, '\n jp kk\n', mask=A_EQU | A_LIT | BYTES | REJECT_GOOD))
    J.append(src('ident_arg', 'j: .equ 1\nkk: .equ ', S(IDS), '\n', mask=A_EQU | A_SYNTAX | BYTES | REJECT_GOOD)); J.append(src('name_sym', sy(2, IDS), ': .equ ', o3(), '\n jp ab\n', mask=A_EQU | A_LABEL | BYTES | REJECT_GOOD))
    J.append(src('directive_name', 'kk: .', sy(3, b'eqEQuUoOrRgG'), ' ', o3(), '\n jp kk\n nop\n', mask=A_EQU | A_DIR | BYTES | REJECT_GOOD))
    # a symbolic choice of what stands between the label and the constant, and around it
    for w, t in dict(space=[S(b' \t\r\n')], two=[S(b' \n;'), S(b' \n\t')], comment=[' ;', S(TEXT), S(TEXT), '\n'], colon=[S(PRINT + b'\n')]).items(): J.append(src('gap_' + w, 'kk:', t, '.equ ', o3(), '\n jp kk\n', mask=A_EQU | A_SYNTAX | A_LEX | BYTES | REJECT_GOOD))
    for w, nm in dict(u1='_n', u2='__n', u3='___', caps='MAX_X', dig='n0', long='n' * 20, like='equ', org='org').items():
        for v, mid in dict(fwd=' .org $300\n cls\n .org $400\n', back=' .org $300\n cls\n .org $100\n', back2=' .org $800\n .db 1\n .org $200\n ret\n .org $100\n', lab='q: cls\nr: s: .db 1\n', equ='q: .equ 3\nr: .equ $fff\n', data=' .db "xyz",1\n .db 2\n').items(): J.append(src('keep_%s_%s' % (w, v), nm, ': .equ $', S(HEXL), S(HEXL), S(b'07f'), '\n', mid, ' jp ', nm, '\n ld I, ', nm, '\n'))
    for k in (8, 30, 100) + ((300,) if th else ()):
        J.append(src('many%d' % k, ' .org $', S(DIG), '00\n', ''.join('c%d: .equ %d\n ld I, c%d\nq%d: jp q%d\n' % (i, (i * 37) % 4096, (i * 5 + 1) % k, i, (i * 3) % k) for i in range(k)), 'z: .equ ', o3(), '\n jp z\n'))
    for m, ops in FORMS:
        if numeric(ops): J.append(src('all_' + form_name(m, ops), ' ', stmt(m, ops, lambda k: ['kk'], S(DIG), S(DIG)), 'a: kk: .equ $', S(b'0') if 'a' not in ops else S(HEXL), S(HEXL) if 'h' not in ops else '0', S(HEXL), '\n ', stmt(m, ops, lambda k: ['kk'], S(DIG), S(DIG)), 'e: jp e\n'))
    return Prop(5, A_EQU | REJECT_GOOD | BYTES, J, 'all 12-bit constants in each base; definitions before/after/between uses, origins, data, instructions and other labels; misplaced and malformed definitions; up to 100 (thorough 300) constants')

# ---------------------------------------------------------------------------------------------- C06
STRC = bytes(c for c in range(1, 128) if c not in b'"\\')
def c06(tier):
    J = []; th = tier == 'thorough'; b2 = lambda: ['$', S(HEXL), S(HEXL)]
    J.append(src('hex3', ' .db $', hx(3), '\n')); J.append(src('dec', ' .db ', sy(3, DIG), '\n')); J.append(src('dec4', ' .db ', sy(4, DIG), ',1\n')); J.append(src('bin', ' .db %', sy(6, BIN), '01\n')); J.append(src('bin9', ' .db %', sy(2, BIN), '0000000\n'))
    for k in (1, 2, 3, 4): J.append(src('list%d' % k, ' .DB ', [[b2(), ',' if i < k - 1 else '\n'] for i in range(k)])); J.append(src('declist%d' % k, ' .db ', [[sy(2, DIG), ', ' if i < k - 1 else '\n'] for i in range(k)]))
    for pos in range(5): J.append(src('range_pos%d' % pos, ' .db ', [[['$', S(HEXL), S(HEXL), S(HEXL)] if i == pos else '7', ',' if i < 4 else '\n'] for i in range(5)]))
    for pos in range(3): J.append(src('range_str%d' % pos, ' .db ', [[sy(3, DIG) if i == pos else '"ab"', ',' if i < 2 else '\n'] for i in range(3)]))
    J.append(src('none', ' .db\n cls\n', mask=A_DB | BYTES | REJECT_GOOD)); J.append(src('none2', 'x: .db \n', S(b' \n\t'), ' .db 1\n'))
    # strings
    for n in (1, 2, 3, 4): J.append(src('str%d' % n, ' .db "', sy(n, ASCII), '"\n', mask=A_DB | A_LEX | BYTES | REJECT_GOOD))
    J.append(src('str2full', ' .db "', sy(2, ALL), '"\n', mask=A_DB | A_LEX | A_INPUT | BYTES | REJECT_GOOD)); J.append(src('str3utf', ' .db "', S(range(0xc0, 0x100)), sy(2, range(0x20, 0x100)), '"\n', mask=A_DB | A_LEX | A_INPUT | BYTES | REJECT_GOOD))
    J.append(src('utf2', ' .db "', S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), 'z"\n')); J.append(src('utf3', ' .db "', S(range(0xe1, 0xed)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), '",1\n')); J.append(src('utf4', ' .db 1,"', S(range(0xf1, 0xf4)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), '"\n'))
    J.append(src('utfmix', ' .db "a', S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), S(STRC), b'\xe2\x82\xac', S(STRC), '"\nx: jp x\n'))
    J.append(src('esc', ' .db "\\', S(ASCII), '"\n', mask=A_DB | A_LEX | BYTES | REJECT_GOOD)); J.append(src('esc2', ' .db "a\\', S(PRINT), S(PRINT), 'b"\n', mask=A_DB | A_LEX | A_SYNTAX | BYTES | REJECT_GOOD)); J.append(src('escq', ' .db "\\"', S(STRC), '\\""\n cls\n')); J.append(src('escesc', ' .db "\\\\', S(b'"\\a'), S(b'"\\a,'), '"\n', mask=A_DB | A_LEX | A_SYNTAX | BYTES | REJECT_GOOD))
    for w, t in dict(newline='a\nb', tab='\t', semi='; not a comment', dollar='$12 #3 %1', colon='a:.db', nul='\0', cr='\r\n', n='\\n\\t\\0', percent='%01', comma='a,b', dots='...', spaces='  x  ', hash='#', quote='\\"', high='\x7f').items():
        J.append(src('fix_' + w, ' .db "', t, S(STRC), '","', S(STRC), t, '"\n jp e\ne:\n'))
    J.append(src('empty', ' .db "",', b2(), ',"","', S(STRC), '",""\n')); J.append(src('onlyempty', ' .db ""\nx: jp x\n .db "",""\ny: jp y\n'))
    J.append(src('mixed', ' .db ', b2(), ',"a', S(STRC), 'b",%1', S(BIN), ',', S(DIG), ',"', S(STRC), '"\n')); J.append(src('mixed2', ' .db "', S(STRC), '",', b2(), '\n .db ', b2(), ',"', S(STRC), '"\n'))
    for d in '$#%': J.append(src('sep' + {'$': 'd', '#': 'h', '%': 'p'}[d], ' .db ', d, '1', S(TEXT), S(TEXT), '1\n', mask=A_DB | A_LEX | A_SYNTAX | A_LIT | BYTES | REJECT_GOOD))
    # lengths around record and table sizes
    for n in (7, 8, 9, 14, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513) + ((1023, 1024, 1025, 2047, 2048, 4000, 4095) if th else (1024,)):
        J.append(src('len%d' % n, ' .db "', S(STRC), 'm' * (n - 2) if n > 1 else '', S(STRC), '"\n', steps=80000000))
        if n <= 600: J.append(src('args%d' % n, ' .db ', b2(), [',%d' % (i * 7 % 256) for i in range(n - 2)], ',', b2(), '\n', steps=80000000))
        if n <= 300: J.append(src('blocks%d' % n, [' .db %d\n' % (i & 255) for i in range(n - 1)], ' .db ', b2(), '\n', steps=80000000))
        if n <= 300: J.append(src('strs%d' % n, ' .db "', S(STRC), '"', [',"%s"' % chr(97 + i % 26) for i in range(n - 2)], ',"', S(STRC), '"\n', steps=80000000))
    # placement after other content
    J.append(src('after_code', ' .org $', S(DIG), S(HEXL), S(HEXL), '\n cls\n .db ', b2(), ',"', S(STRC), '"\n ret\n .db ', b2(), '\n'))
    J.append(src('labelled', 'a: .db ', b2(), '\nbb: .db "', S(STRC), S(STRC), '"\nc: .db ', b2(), '\n jp a\n jp bb\n jp c\n'))
    J.append(src('same', ' .db ', *(lambda x: [x, ',', x, ',', x, '\n .db ', x, '\n'])(b2()))); J.append(src('all256', ' .db ', ','.join(str(i) for i in range(256)), '\n .db ', b2(), '\n')); J.append(src('all256hex', ' .db ', ','.join('$%X' % (255 - i) for i in range(256)), '\n')); J.append(src('allascii', ' .db "', bytes(c for c in range(256) if c < 128 and c not in b'"\\'), '",', b2(), '\n'))
    J.append(src('argsym', ' .db ', S(PRINT), S(PRINT), '\n', mask=A_DB | A_LEX | A_SYNTAX | A_LIT | BYTES | REJECT_GOOD)); J.append(src('argsym2', ' .db 1', S(TEXT), S(TEXT), '2\n', mask=A_DB | A_LEX | A_SYNTAX | A_LIT | BYTES | REJECT_GOOD))
    if th:
        J.append(src('argsym3', ' .db ', sy(3, PRINT), '\n', mask=A_DB | A_LEX | A_SYNTAX | A_LIT | BYTES | REJECT_GOOD)); J.append(src('str4full', ' .db "', sy(4, ALL), '"\n', mask=A_DB | A_LEX | A_INPUT | BYTES | REJECT_GOOD)); J.append(src('str6', ' .db "', sy(6, ASCII), '"\n', mask=A_DB | A_LEX | BYTES | REJECT_GOOD))
        for k in (6, 8): J.append(src('list%d' % k, ' .db ', [[b2(), ',' if i < k - 1 else '\n'] for i in range(k)]))
    return Prop(6, A_DB | REJECT_GOOD | BYTES, J, 'lists of up to 4 (thorough 8) fully symbolic numbers and up to 513 arguments; strings of up to 4 (thorough 6) arbitrary ASCII bytes, all UTF-8 sequences of up to 4 bytes, every escape; lengths up to 1024 (thorough 4095) bytes with symbolic ends')

# ---------------------------------------------------------------------------------------------- C07
def c07(tier):
    J = []; th = tier == 'thorough'; h = lambda: S(HEXL); o3 = lambda: ['$', h(), h(), h()]; b2 = lambda: ['$', h(), h()]
    for w, l in dict(hex=o3, dec=lambda: sy(4, DIG), bin=lambda: ['%'] + sy(6, b'01') + ['001100'], hash=lambda: ['#'] + hx(3)).items():
        J.append(src('org_db_' + w, ' .org ', l(), '\n .db ', b2(), '\n')); J.append(src('org_ins_' + w, ' .ORG ', l(), '\n drw v', h(), ',v1,2\n'))
    J.append(src('no_org', ' .db ', b2(), '\n cls\n .db ', b2(), '\n')); J.append(src('org_label', ' .org ', o3(), '\nx: jp x\n jp y\ny:\n'))
    # items of every size across the top of memory
    for n in range(0, 21): J.append(src('top%d' % n, ' .org $f', S(b'ef'), h(), '\n .db "' + 'abcdefghijklmnopqrstuvwxyz'[:n] + '"\n'))
    for k in (1, 2, 3): J.append(src('topins%d' % k, ' .org $ff', h(), '\n', ' cls\n' * k)); J.append(src('topmix%d' % k, ' .org $f', S(b'ef'), h(), '\n', ' cls\n' * k, ' .db 1,2,3\n'))
    J.append(src('topmix4', ' .org $ff', h(), '\n .db 1\n cls\n .db 2\n ret\n')); J.append(src('topreturn', ' .org $ff', h(), '\n .db ', b2(), '\n .org 0\n .db ', b2(), '\n')); J.append(src('topreturn2', ' .org $ff', h(), '\n cls\nx: .org $', h(), '00\n jp x\n'))
    J.append(src('top_anywhere', ' .org ', o3(), '\n cls\n .db 1,2,3\n')); J.append(src('top_empty', ' .org ', o3(), '\n')); J.append(src('top_emptystr', ' .org ', o3(), '\n .db ""\nx: .org 0\n jp x\n'))
    # sequences of origins
    J.append(src('seq2', ' .org $2', h(), h(), '\n .db ', b2(), '\n .org $1', h(), h(), '\n .db ', b2(), '\n')); J.append(src('seq3', ' .db 1\n .org $1', h(), '0\n cls\n .org $4', h(), '0\n ret\n .org $3', h(), '0\n nop\n .db 9\n'))
    J.append(src('seq4', [[' .org $', c, h(), '0\n .db "%s",' % c, b2(), '\n'] for c in '8421'])); J.append(src('same_org', ' .org $2', h(), '0\n .org $2', h(), '0\n .db 1\n')); J.append(src('empties', [' .org $', h(), '00\n'] * 3, ' .org $123\n .db 5\n', [' .org $', h(), '10\n'], '\n'))
    J.append(src('continue', ' .org $200\n .db 1,2,3\n .org $20', h(), '\n .db 4\n', mask=A_OVERLAP | A_MEM | BYTES | REJECT_GOOD)); J.append(src('back0', ' .org $300\n .db 1\n .org 0\n .db ', b2(), '\n .org $', S(b'12'), h(), h(), '\n cls\n'))
    J.append(src('lead_org_none', ' cls\n .org ', o3(), '\n .db ', b2(), '\n', mask=A_OVERLAP | A_MEM | BYTES | REJECT_GOOD))
    # every instruction form advances by two
    for m, ops in FORMS: J.append(src('adv_' + form_name(m, ops), ' .org $', h(), h(), '0\n ', stmt(m, ops, lambda k: ['3'], h(), h()), ' .db ', b2(), '\n'))
    # large blocks
    for n in (240, 255, 256, 257, 511, 512, 1023, 1024, 2048, 3583, 3584, 4093, 4094, 4095, 4096, 4097) + ((4200, 5000) if th else ()):
        J.append(src('block%d' % n, ' .db "', S(STRC), 'q' * (n - 2), S(STRC), '"\n', steps=200000000)); J.append(src('blockins%d' % n, ' .db "', S(STRC), 'q' * (n - 2), '"\n cls\n', steps=200000000))
    for n in (8000, 8192, 8193, 12289) if th else (8192,): J.append(src('huge%d' % n, ' .db "', 'q' * n, '"\n .db ', b2(), '\n', steps=400000000))
    for n in (100, 600) + ((2047, 2048) if th else ()): J.append(src('inss%d' % n, ' cls\n' * n, ' .db ', b2(), '\n', steps=400000000))
    J.append(src('org_block', ' .org $', S(b'ab'), h(), '0\n .db "', 'k' * 1296, '"\n', steps=200000000)); J.append(src('org_block2', ' .org $', S(b'de'), h(), h(), '\n .db "', 'k' * 300, '"\n', steps=200000000)); J.append(src('twoblocks', ' .org $200\n .db "', 'a' * 2000, '"\n .db "', 'b' * 1580, '"\n .db ', b2(), '\n', S(b' \n'), ' .db 1,2,3\n', steps=200000000))
    J.append(src('pass_top_then_org', ' .org $ff0\n .db "', 'a' * 14, '"', S(b',;'), S(b'1"'), '\n .org 0\n .db 1\n', mask=A_MEM | A_LEX | A_SYNTAX | BYTES | REJECT_GOOD))
    # .ORG arguments
    for w, arg in dict(none=[], str=['"', S(PRINT), '"'], two=[sy(1, DIG), ',', sy(1, DIG)], numstr=['1,"a"'], strnum=['"a",1'], big=['4', S(DIG), S(DIG), S(DIG)], big5=sy(5, DIG), three=['1,2,3']).items(): J.append(src('arg_' + w, ' .org ', arg, '\n cls\n', mask=A_MEM | A_LIT | A_SYNTAX | BYTES | REJECT_GOOD)); J.append(src('arg2_' + w, ' .db 1\n .org ', arg, '\n .db 2\n', mask=A_MEM | A_LIT | A_SYNTAX | A_OVERLAP | BYTES | REJECT_GOOD))
    J.append(src('name', ' .', sy(3, b'orgORGdDb'), ' ', o3(), '\n .db ', b2(), '\n', mask=A_MEM | A_DIR | A_DB | A_EQU | BYTES | REJECT_GOOD))
    if th:
        J.append(src('seqsym', [[' .org ', o3(), '\n .db ', b2(), '\n'] for _ in range(2)], mask=A_OVERLAP | A_MEM | BYTES | REJECT_GOOD))
        for n in range(2, 40, 3): J.append(src('anyorg%d' % n, ' .org ', o3(), '\n .db "' + 'z' * n + '"\n'))
    return Prop(7, A_MEM | REJECT_GOOD | BYTES, J, 'one origin of all 12 bits with items of 0 to 20 bytes at the top of memory, sequences of up to 4 origins with symbolic digits, blocks of up to 4097 (thorough 12289) bytes, up to 600 (thorough 2048) instructions')

# ---------------------------------------------------------------------------------------------- C08
def c08(tier):
    J = []; th = tier == 'thorough'; h = lambda c=HEXL: S(c)
    def blk(a, n): return [' .org $', a, '\n', [' .db "%s"\n' % ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ' * 10)[:n]] if n else []]
    sizes = (1, 2, 3, 16, 17)
    for a, b in itertools.product((0, 1, 2, 5, 16, 33), (0, 1, 2, 5, 16, 33)):
        J.append(src('pair_%d_%d' % (a, b), blk(['2', h(b'0123'), h()], a), blk(['2', h(b'0123'), h()], b)))
    J.append(src('full12', ' .org $', h(), h(), h(), '\n .db 1,2\n .org $', h(), h(), h(), '\n .db 3\n')); J.append(src('full12_fix', ' .org $400\n .db "', 'x' * 100, '"\n .org $', h(), h(), h(), '\n .db 3,4,5\n')); J.append(src('full12_fix2', ' .org $', h(), h(), h(), '\n .db 3,4,5,6\n .org $400\n .db "', 'x' * 20, '"\n'))
    for n in (1, 2, 3): J.append(src('implicit%d' % n, ' cls\n' * n, ' .org $0', h(), h(), '\n .db 1\n')); J.append(src('implicit_rev%d' % n, ' .org $0', h(), h(), '\n .db 1\n .org 0\n', ' cls\n' * n))
    J.append(src('contain', blk(['200'], 64), blk(['2', h(), h()], 2))); J.append(src('contain_rev', blk(['2', h(), h()], 2), blk(['240'], 64))); J.append(src('same', blk(['2', h(), '0'], 4), blk(['2', h(), '0'], 4)))
    # three and four ranges: the offending pair can be any
    for n, (x, y, z) in enumerate([(4, 4, 4), (1, 1, 1), (16, 1, 8), (2, 0, 2), (0, 3, 3), (3, 3, 0), (1, 16, 1), (8, 2, 16)]):
        J.append(src('three%d' % n, blk(['10', h()], x), blk(['1', h(b'01'), h()], y), blk(['1', h(b'01'), h(b'048c')], z)))
    for n, ws in enumerate([(2, 2, 2, 2), (1, 3, 1, 3), (16, 1, 16, 1), (4, 0, 4, 0)]):
        J.append(src('four%d' % n, blk(['10', h(b'0246')], ws[0]), blk(['1', h(b'01'), h(b'048c')], ws[1]), blk(['1', h(b'01'), h(b'08')], ws[2]), blk(['1', h(b'012'), '0'], ws[3])))
    for k in (2, 3, 4, 5, 6, 9, 17):   # sections with equal contents and sizes
        for w, t in dict(ins=' cls\n', one=' .db 7\n', two=' jp $123\n', four=' .db "abcd"\n', zero=' nop\n', sixteen=' .db "' + 'e' * 16 + '"\n').items():
            for q in sorted(set([1, k - 1])): J.append(src('equal%d_%s_%d' % (k, w, q), [[' .org $', [h(b'01'), h(b'0123'), h()] if i == q else ['%03x' % (i * 0x20)], '\n', t] for i in range(k)]))
    for k in (5, 6, 8, 12):   # many ranges, any one of them misplaced
        rng = [('%03x' % (0x100 + 0x20 * i), 4) for i in range(k)]
        for q in sorted(set([0, 1, k // 2, k - 2, k - 1])):
            J.append(src('many%d_%d' % (k, q), [blk([h(b'1'), h(), h(b'0248')], 4) if i == q else blk([a], n) for i, (a, n) in enumerate(rng)]))
            J.append(src('manyrev%d_%d' % (k, q), [blk([h(b'1'), h(), h(b'0248')], 4) if i == q else blk([a], n) for i, (a, n) in list(enumerate(rng))[::-1]]))
    J.append(src('adjacent', blk(['20', h()], 8), blk(['20', h()], 8), ' cls\n')); J.append(src('adjacent_ins', ' .org $20', h(), '\n cls\n ret\n .org $20', h(), '\n nop\n')); J.append(src('grow', ' .org $208\n .db 1\n .org $200\n', ' cls\n' * 3, ' .db "', 'abc'[:1], '"', S(b'\n,'), S(b' 7'), '\n', mask=A_OVERLAP | A_SYNTAX | REJECT_GOOD))
    J.append(src('top', blk(['f', h(b'ef'), h()], 6), blk(['f', h(b'ef'), h()], 3))); J.append(src('top_low', blk(['ff', h()], 4), blk(['00', h()], 4))); J.append(src('bottom', blk(['00', h()], 3), blk(['00', h()], 5)))
    J.append(src('empty_inside', blk(['200'], 16), blk(['2', h(b'01'), h()], 0), blk(['300'], 2))); J.append(src('empty_inside2', blk(['2', h(b'01'), h()], 0), blk(['200'], 16), ' .org $208\n')); J.append(src('empty_str', blk(['200'], 16), ' .org $20', h(), '\n .db ""\n .org $300\n cls\n'))
    J.append(src('equal_bytes', ' .org $', h(b'23'), h(), '0\n .db 7\n .org $', h(b'23'), h(), '0\n .db 7\n')); J.append(src('big', blk(['2', h(), '0'], 0), ' .db "', 'x' * 600, '"\n .org $', h(), h(), '0\n .db "', 'y' * 300, '"\n', steps=200000000)); J.append(src('page', blk([h(), 'ff'], 2), blk([h(), '0', h(b'0123')], 2)))
    J.append(src('instr', ' .org $', h(), '0', h(), '\n jp x\n call x\nx: ret\n .org $', h(), '0', h(), '\n cls\n')); J.append(src('dec', ' .org ', sy(3, DIG), '\n .db 1,2,3\n .org ', sy(3, DIG), '\n .db 1,2\n'))
    J.append(src('label_at', ' .org $200\n .db 1,2,3,4\nx: .org $20', h(), '\ny: .db 9\n jp x\n jp y\n'))
    if th:
        for a, b in itertools.product(range(0, 20), range(0, 20)): J.append(src('tp_%d_%d' % (a, b), blk(['2', h(b'01'), h()], a), blk(['2', h(b'01'), h()], b)))
        J.append(src('three12', ' .org $', h(), h(), h(), '\n .db 1,2\n .org $', h(), h(), h(), '\n .db 3\n .org $', h(), h(), h(), '\n .db 4\n'))
    return Prop(8, A_OVERLAP | REJECT_GOOD, J, 'two ranges with all 12 bits of both origins symbolic, pairs of ranges of 0 to 33 bytes in every relative position of a 64-byte window, three and four ranges with symbolic origins, 5 to 12 ranges any one of which is misplaced')

# ---------------------------------------------------------------------------------------------- C09
def c09(tier):
    J = []; th = tier == 'thorough'; h = lambda c=HEXL: S(c); b2 = lambda: ['$', h(), h()]
    J.append(src('nothing', S(b' \n\t'), '\n')); J.append(src('nothing2', ' .org $', h(), h(), h(), '\n')); J.append(Job('emptyfile', Run(b'')))
    for n in list(range(1, 50)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 271, 272, 273, 511, 512, 513, 767, 768, 769, 1024, 4093, 4094, 4095]:
        big = n > 49; org = '000' if n > 2000 else [h(), '00'] if n > 130 else [h(), h(), h()]
        J.append(src('len%d' % n, ' .org $', org, '\n .db ', b2(), ',"', 'e' * max(0, n - 2), '"', [',', b2()] if n > 1 else '', '\n', steps=200000000))
        if not big: J.append(src('lens%d' % n, ' .org $2', h(), '0\n .db "', S(STRC), 'e' * max(0, n - 2), S(STRC) if n > 1 else '', '"\n'))
    for n in (1, 2, 4, 8, 16, 17, 20): J.append(src('sym%d' % n, ' .db ', [[b2(), ',' if i < n - 1 else '\n'] for i in range(n)]))
    for n in (1, 2, 4, 6): J.append(src('symins%d' % n, [[' ld v', h(), ',$', h(), h(DIG), '\n'] for i in range(n)]))
    for n in (1, 15, 16, 17, 31, 32, 33, 40): J.append(src('org%d' % n, ' .org $', h(), h(), h(), '\n .db ', b2(), [',%d' % (i * 11 % 256) for i in range(n - 1)], '\n'))
    for n in (1, 16, 17, 48): J.append(src('page%d' % n, ' .org $', h(), S(b'ef'), h(), '\n .db "', 'x' * n, '",', b2(), '\n'))
    for k in (2, 3, 5, 9, 20, 60): J.append(src('ranges%d' % k, [[' .org $%x' % (0x100 + 0x31 * i), '\n .db ', b2() if i in (0, k // 2, k - 1) else '1', ',"%s"\n' % ('abcdefghijklmnopqrst'[:(i * 7) % 21])] for i in range(k)])); J.append(src('rangesrev%d' % k, [[' .org $%x' % (0x100 + 0x31 * i), '\n .db ', b2() if i in (0, k // 2, k - 1) else '1', ',"%s"\n' % ('abcdefghijklmnopqrst'[:(i * 7) % 21])] for i in range(k)][::-1]))
    for a, b in itertools.product((1, 15, 16, 17, 32), (1, 15, 16, 17)): J.append(src('two_%d_%d' % (a, b), ' .org $', h(), '00\n .db ', b2(), ',"', 'a' * (a - 1), '"\n .org $', h(), '80\n .db "', 'b' * (b - 1), '",', b2(), '\n'))
    J.append(src('adj', ' .org $200\n .db "', 'a' * 20, '"\n .org $2', h(b'12'), h(), '\n .db "', 'b' * 20, '",', b2(), '\n')); J.append(src('adjrev', ' .org $2', h(b'12'), h(), '\n .db "', 'b' * 20, '",', b2(), '\n .org $200\n .db "', 'a' * 16, '"\n'))
    J.append(src('zero', ' .db ', ['$', h(b'0'), h(b'01')], ',0' * 20, '\n')); J.append(src('ff', ' .db ', ['$', h(b'ef'), h()], ',255' * 20, '\n .org $f', h(b'0f'), '0\n .db 255\n')); J.append(src('low_after_high', ' .org $f', h(), '0\n .db 1\n .org 0\n .db ', b2(), '\n .org $8', h(), '0\n cls\n'))
    J.append(src('topmost', ' .org $ff', h(), '\n .db ', b2(), '\n')); J.append(src('topmost2', ' .org $f', h(b'ef'), h(), '\n .db "abcdefghijklmnopq",', b2(), '\n'))
    J.append(Job('stdout', Run(T(' .org $', h(), '00\n .db ', b2(), ',"', 'x' * 20, '"\n'), out='-'))); J.append(Job('stdout_big', Run(T(' .db "', 'x' * 700, '",', b2(), '\n'), out='-'))); J.append(Job('stdout_empty', Run(T('\n'), out='-')))
    J.append(Job('overwrite', Run(T(' .db ', b2(), ',"', 'x' * 20, '"\n'), pre=b':10000000' + b'00' * 400 + b'\n'))); J.append(Job('overwrite_empty', Run(T(' .org $', h(), '00\n'), pre=b'junk' * 100)))
    x, y = S(DIG), S(b'abcdef'); d = [S(DIG) for _ in range(3)]
    J.append(src('program', ' .org $', h(), '00\n', [stmt(m, ops, lambda k: ['$'] + d[:HL[k]], x, y) for m, ops in FORMS], ' .db "text",', b2(), '\n'))
    if th:
        for n in range(50, 300): J.append(src('len%d_t' % n, ' .org $', h(), h(), h(), '\n .db "', S(STRC), 'e' * (n - 2), S(STRC), '"\n', steps=200000000))
        for n in (32, 48): J.append(src('sym%d' % n, ' .db ', [[b2(), ',' if i < n - 1 else '\n'] for i in range(n)]))
    return Prop(9, FORMAT | BYTES, J, 'images of 0 to 49 bytes and selected sizes to 4095 (thorough: also every size to 299) with symbolic bytes and symbolic origin, up to 20 (thorough 48) fully symbolic bytes, up to 60 ranges in ascending and descending order; file and standard output destinations')

# ---------------------------------------------------------------------------------------------- C16
def c16(tier):
    J = []
    for hi in range(16):
        w = [S([v for v in range(256) if v >> 4 == hi]), S(ALL)]
        J.append(Job('word_%X' % hi, Run(args=['c8s', 'in.s'], files=[('in.s', w)])))
        for n in (0, 1, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 8, 17): J.append(Job('formatted%d_%X' % (n, hi), Run(args=['c8s', 'in.s', 'x' * n], files=[('in.s', [S([v for v in range(256) if v >> 4 == hi]), S(ALL)])])))
    return Prop(16, ROUND | CRASH, J, 'all 65536 words, exhaustively (both bytes fully symbolic); plain text form and formatted form with 0, 1 and 4 leading spaces', crate='rt', assume=['the opcode module is driven by roundtrip/main.rs, which includes the modules of the current tree'])

PROPS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C16=c16)
import templates_b
PROPS.update(templates_b.NEW)
import templates_c
PROPS.update(templates_c.NEW)
def property(pid, tier):
    import scale, mixed, wide
    return wide.extend(mixed.extend(scale.extend(PROPS[pid](tier), pid, tier), pid, tier), pid, tier)
