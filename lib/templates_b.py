"""Questions for the whole-command properties: failures, crashes, positions, layout, command line, malformed text."""
import copy, itertools
import templates as tb
from templates import *
U3 = lambda: [S(b'\xe1\xe2\xe3\xe4\xe5\xe6\xe7\xe8\xe9\xea\xeb\xec\xee\xef'), S(range(0x80, 0xc0)), S(range(0x80, 0xc0))]      # any character U+1000-U+CFFF, U+E000-U+FFFF
U4 = lambda: [S(b'\xf1\xf2\xf3'), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0))]

# Small programs that together use every token kind, statement kind and operand kind; the corruption families below walk over them.
BASES = dict(
  ins=' ld v1, $2A\n jp x\nx: cls\n',
  data='d: .db 1,"ab", %1.1\n .db $FF\n ld I, d\n',
  org=' .org $200\n call $204 ; go\n .ORG 16\n ret\n',
  equ='k9: .equ 7\n ld v0, k9\n drw va,vb,k9\n',
  regs=' ld [I], v3\n ld dt,v1\n ld v2,k\n add I,v4\n',
  lay='; c\n\n a_1:\n\tse v1,v2\r\n jp v0,a_1\n',
  str=' .db "a;b",0 ; "\n .db "\\"q"\nz: jp z\n',
)
ERRORS = dict(   # one rejected program per reason
  form=' cls v1\n', mnem=' foo v1\n', field=' ld v1, 256\n', height=' drw v1,v2,16\n', lit=' jp 5000\n', bin=' jp %1111111111111\n', undef=' jp nowhere\n', dup='a: cls\na: ret\n', equ=' .equ 5\n', equarg='a: .equ "x"\n', db=' .db 256\n', dbnone=' .db\n',
  mem=' .org $fff\n cls\n', memdb=' .org $ffe\n .db 1,2,3\n', orgarg=' .org "a"\n', overlap=' .db 1\n .org 0\n .db 2\n', lex=' .db "open\n', lex2=' jp @\n', lex3=' jp $\n', lex4=' ld [J], v1\n', syn=' ld v1,,v2\n', syn2=' 123\n', syn3=' :\n', syn4=' ld "x", v1\n', dirx=' .foo 1\n', dir0=' . 1\n', utf=b' .db "\xff"\n', utf2=b'; \xc3\n')
ODUMP = b':10000000' + b'00' * 16 + b'F0\n' * 40

def positions(text): return range(len(text))
def replaced(J, tag, text, chars, mask=None, pos=None, n=1, **kw):
    b = T(text)
    for p in pos if pos is not None else range(len(b) - n + 1): J.append(Job('%s_r%d' % (tag, p), Run(b[:p] + sy(n, chars) + b[p + n:], **kw), mask=mask))
def inserted(J, tag, text, chars, mask=None, pos=None, n=1, **kw):
    b = T(text)
    for p in pos if pos is not None else range(len(b) + 1): J.append(Job('%s_i%d' % (tag, p), Run(b[:p] + sy(n, chars) + b[p:], **kw), mask=mask))
def deleted(J, tag, text, mask=None, **kw):
    """One byte removed, the one after it symbolic."""
    b = T(text)
    for p in range(len(b) - 1): J.append(Job('%s_d%d' % (tag, p), Run(b[:p] + sy(1, ALL) + b[p + 2:], **kw), mask=mask))
def borrow(J, props, tier, mask, pick=None):
    """Other properties' questions, asked again about this one."""
    for p in props:
        for j in tb.PROPS[p](tier).jobs:
            if len(j.runs) > 1 or (pick and not pick(j)): continue
            k = copy.copy(j); k.name = p + '.' + j.name; k.mask = mask; k.prop = 0; J.append(k)

# ---------------------------------------------------------------------------------------------- C10
def c10(tier):
    J = []; th = tier == 'thorough'; h = lambda: S(HEXL); b2 = lambda: ['$', h(), h()]
    M = FAILTOUCH | NODIAG | OTHERFILE | IO | FORMAT | BYTES; pres = dict(new=None, old=ODUMP, short=b'x', empty=b'')
    good = dict(tiny=[' .db ', b2(), '\n'], empty=['\n'], code=[' .org $2', h(), '0\nx: ld v', h(), ',$', h(), h(), '\n jp x\n'], text=[' .db "', 'x' * 100, '",', b2(), '\n'])
    for g, t in good.items():
        for w, pre in pres.items(): J.append(src('ok_%s_%s' % (g, w), t, pre=pre))
        J.append(src('ok_%s_std' % g, t, out='-')); J.append(src('ok_%s_a' % g, t, args=['c8s', 'in.s'], files=[('in.s', T(t)), ('a.hex', ODUMP), ('other', b'keep')]))
    # every rejection, in front of, behind and between good statements, with and without a previous output
    around = dict(alone=('', ''), after=(' .db 1\n cls\n', ''), before=('', ' .db 1\n cls\n'), mid=(' .org $100\n ret\n', ' .org $200\n .db "z"\n'))
    for e, t in ERRORS.items():
        for a, (p, s) in around.items():
            if e == 'overlap' and a in ('after',): continue
            tx = T(p, t, s)
            for w, kw in dict(new=dict(), old=dict(pre=ODUMP), std=dict(out='-'), emp=dict(pre=b'')).items():
                if w == 'emp' and a != 'alone': continue
                J.append(Job('bad_%s_%s_%s' % (e, a, w), Run(tx, **kw)))
            J.append(Job('badf_%s_%s' % (e, a), Run(tx, pre=ODUMP, faults=(1, 'ocrwse'))))
    # schedules of failing, partial and interrupted operations
    for g, t in dict(tiny=' .db 1\n', text=' .db "' + 'x' * 60 + '"\n', empty='\n', big=' .db "' + 'y' * 1500 + '"\n', huge=' .db "' + 'y' * 4000 + '"\n').items():
        for n in (1, 2, 3) if g in ('tiny', 'text') or th else (1, 2):
            for w, pre in pres.items():
                if n == 3 and w in ('short', 'empty') and not th: continue
                J.append(src('io_%s%d_%s' % (g, n, w), t, pre=pre, faults=(n, 'ocrwe'), steps=200000000))
            J.append(src('io_%s%d_std' % (g, n), t, out='-', faults=(n, 'orse'), steps=200000000))
        J.append(src('io_%s_w4' % g, t, pre=ODUMP, faults=(4 if th else 3, 'w'), steps=200000000))
    J.append(src('io_sym', ' .db ', b2(), ',"', 'x' * 30, '"\n', faults=(2, 'ocrwse'), pre=ODUMP)); J.append(src('io_symstd', ' .db ', b2(), ',"', 'x' * 30, '"\n', faults=(2, 'ocrwse'), out='-'))
    J.append(src('io_maybe', ' .db ', sy(3, DIG), '\n', faults=(2, 'ocrwse'), pre=ODUMP)); J.append(src('io_maybe_std', ' jp ', S(b'xy'), '\nx: cls\n', faults=(2, 'ocrwse'), out='-'))
    # unreadable input
    for w, pre in pres.items():
        J.append(Job('noinput_' + w, Run(files=[('other', b'keep')], pre=pre))); J.append(src('utf8a_' + w, ' .db "', sy(2, ALL), '"\n', pre=pre)); J.append(src('utf8b_' + w, ' cls ;', S(range(128, 256)), S(ALL), '\n', pre=pre))
    J.append(Job('noinput_std', Run(files=[], out='-'))); J.append(Job('noinput_name', Run(args=['c8s', '-o', 'out.hex', T(sy(2, IDC), '.s')], files=[('in.s', b' cls\n'), ('ab.s', b' ret\n'), ('out.hex', ODUMP)])))
    J.append(Job('emptyout', Run(T(' .db ', b2(), '\n'), args=['c8s', '-o', '', 'in.s'])))
    # symbolic programs: success or failure decided by the solver
    for g, t in BASES.items():
        for p in range(0, len(T(t)), 1 if th else 2): b = T(t); J.append(Job('sym_%s_%d' % (g, p), Run(b[:p] + sy(1, ALL) + b[p + 1:], pre=ODUMP))); J.append(Job('symio_%s_%d' % (g, p), Run(b[:p] + sy(1, b'\n ;"$5x,:') + b[p + 1:], pre=ODUMP, faults=(1, 'ocrwe'))))
        J.append(Job('symstd_%s' % g, Run(b[:6] + sy(2, PRINT) + b[8:], out='-')))
    borrow(J, ['C02', 'C03', 'C04', 'C05', 'C07', 'C08'] + (['C01', 'C06', 'C09'] if th else []), tier, M, None if th else lambda j: hash_pick(j.name, 4))
    return Prop(10, M, J, 'every schedule of up to 3 (thorough 4) failing, partial or interrupted open/create/read/write operations on programs with outputs of 12 bytes to 11 KB, to a file (absent, empty, shorter, longer before) and to standard output; every rejection reason in four contexts with and without a previous output file; small programs with a symbolic byte at every other (thorough every) position', budget=400)
def hash_pick(name, n):
    h = 0
    for c in name: h = (h * 131 + ord(c)) & 0xffffffff
    return h % n == 0

# ---------------------------------------------------------------------------------------------- C11
def c11(tier):
    J = []; th = tier == 'thorough'
    for n in range(0, 4 if not th else 5): J.append(Job('raw%d' % n, Run(sy(n, ALL))))
    J.append(Job('raw4ascii', Run(sy(4, b'\n "$#%.:,;[I]vV1aAf\\\0\x7f' if not th else PRINT + b'\n\t\0'))))
    ctx = dict(op=(' ld ', '\n'), op2=(' ld v1,', '\n'), op3=(' drw v1,v2,', '\n'), jp=(' jp ', '\n'), dir=(' .', '\n'), db=(' .db ', '\n'), db2=(' .db 1,', '\n'), org=(' .org ', '\n cls\n'), equ=('k: .equ ', '\n jp k\n'), str=(' .db "', '"\n'), label=('', ': cls\n jp x\n'), ind=(' ld [', '], v1\n'), com=(' cls ;', '\n ret\n'), hexd=(' jp $', '\n'), bind=(' jp %', '\n'), decd=(' jp 1', '\n'), mn=(' ', ' v1, v2\n'), eof=(' cls\n ', ''), eofdb=(' .db 1', ''), eofins=(' ld v1, 1', ''), eofstr=(' .db "a', ''), eoflab=('x: jp x\nx', ''), nodir=('x: .', ''), line2=(' cls\n', ' ret\n'))
    for c, (a, b) in ctx.items():
        for n in (1, 2): J.append(Job('%s%d' % (c, n), Run(T(a, sy(n, ALL), b))))
        J.append(Job('%s3' % c, Run(T(a, sy(3, ALL if th else b'\n "$%.:,;[]iI1aVdT\\9_0' + b'\xc3\xa9'), b))))
        J.append(Job('%s_utf' % c, Run(T(a, S(range(0xc0, 256)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), b)))); J.append(Job('%s_utf4' % c, Run(T(a, S(range(0xf0, 256)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), b))))
    for g, t in BASES.items():
        replaced(J, g, t, ALL); inserted(J, g, t, ALL); deleted(J, g, t)
        if th: replaced(J, g + '2', t, ASCII, n=2); inserted(J, g + '2', t, ASCII, n=2)
    # truncation: every prefix of every base program, its last byte symbolic
    for g, t in BASES.items():
        for p in range(1, len(T(t))): J.append(Job('%s_t%d' % (g, p), Run(T(t)[:p - 1] + sy(1, ALL))))
    # sizes: long tokens, lines, lists and files with a symbolic byte
    for n in (64, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 20000) + ((65000,) if th else ()):
        X = S(ALL)
        for w, t in dict(ident=['a' * n, X, '\n'], lab=['a' * n, X, ': cls\n'], dec=[' jp ', '9' * n, X, '\n'], zero=[' jp ', '0' * n, X, '\n'], bin=[' jp %', '1' * n, X, '\n'], hexx=[' jp $', 'f' * n, X, '\n'], com=[';', 'x' * n, X, '\n cls\n'], sp=[' ' * n, X, 'cls\n'], nl=['\n' * n, X, 'cls\n'], str=[' .db "', 'x' * n, X, '"\n'], dots=['.' * n, X], quotes=['"' * n, X], colons=['a:' * n, X], mn=[' ', 'l' * n, X, ' v1\n']).items():
            if n > 5000 and w in ('quotes', 'colons', 'dots') : continue
            J.append(Job('size%d_%s' % (n, w), Run(T(t)), steps=600000000))
    for n in (10, 200, 1000, 3000) + ((8000,) if th else ()):
        X = S(ALL); J.append(Job('args%d' % n, Run(T(' .db ', '1,' * n, X, '\n')), steps=600000000)); J.append(Job('fields%d' % n, Run(T(' ld ', 'v1,' * n, X, '\n')), steps=600000000)); J.append(Job('strs%d' % n, Run(T(' .db ', '"",' * n, '"', X, '"\n')), steps=600000000)); J.append(Job('orgs%d' % n, Run(T(' .org 5\n' * n, X, '\n')), steps=600000000)); J.append(Job('labs%d' % n, Run(T(''.join('l%d:\n' % i for i in range(min(n, 1000))), X, '\n')), steps=600000000))
    # arithmetic on addresses and sizes near every boundary
    h = lambda: S(HEXL)
    for n in (0, 1, 2, 3, 16, 255, 256): J.append(src('edge%d' % n, ' .org $f', h(), h(), '\n .db "', 'x' * n, '"\n cls\n')); J.append(src('edgelab%d' % n, ' .org $f', h(), h(), '\nx: .db "', 'x' * n, '"\ny: jp y\n jp x\n'))
    J.append(src('edge_two', ' .org $', h(), h(), h(), '\n .db 1,2\n .org $', h(), h(), h(), '\n .db 3\n')); J.append(src('edge_equ', 'a: .equ ', sy(4, DIG), '\n jp a\n ld v1,a\n')); J.append(src('edge_drw', ' drw v1,v2,', sy(4, DIG), '\n'))
    J += [Job('out_std', Run(T(' .org $', h(), h(), h(), '\n .db 1,2,3\n'), out='-')), Job('noinput', Run(files=[]))]
    others = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
    borrow(J, others, tier if th else 'quick', CRASH, None if th else lambda j: hash_pick(j.name, 3))
    return Prop(11, CRASH, J, 'all files of up to 3 (thorough 4) arbitrary bytes; 1 to 3 arbitrary bytes in 24 syntactic contexts; small programs with one byte replaced, inserted, or deleted, and every truncation of them, with an arbitrary byte at the place; tokens, lines and lists of up to 20000 characters (3000 list items); a third of (thorough: all) the questions of C01 to C09', budget=500)

# ---------------------------------------------------------------------------------------------- C12
def c12(tier):
    J = []; th = tier == 'thorough'
    cc = bytes(c for c in range(1, 128) if c != 10)
    layouts = dict(none=[], spaces=[[S(b' \t\r\x0b')], [S(b' \t')]], newlines=[S(b'\n '), S(b'\n '), S(b'\n '), S(b'\n\t')], comment=[';', S(cc), S(cc), S(b'\n'), S(b'\n ')], comment2=['; "unclosed, $ % [\n', S(b' \n')], crlf=['\r\n', S(b'\r '), '\n'], stmt=[' cls', S(b' \t\r'), '\n', S(b' \n')], str=[' .db "', S(STRC), S(STRC), '"\n'], strnl=[' .db "a', S(b'\n\tb'), S(b'\nc'), '"\n'], utf=[' .db "', S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), 'x"', S(b'\n'), S(b' \n')], utfc=[';', b'\xe2\x82\xac', S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), '\n'], utf4=[' .db "', S(range(0xf1, 0xf4)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), '"\n'],
                   label=['lbl:', S(b' \n'), S(b' \t\n')], utfws=[b'\xc2\xa0', S(b' \n'), b'\xe3\x80\x80'], sameline=['p: q: ', S(b' \t')], equ=['q: .equ ', S(DIG), S(DIG), ' ;', S(cc), '\n'], tabs=['\t\t', S(b'\t \n'), '\t'], esc=[' .db "\\', S(b'"\\n'), S(b'a'), '"\n'], lines12=['\n' * 10, S(b'\n '), '\n'], lines120=['; x\n' * 99, S(b'\n '), S(b'\n ')], col12=[' ' * 9, S(b' \n'), S(b' \n')], col120=[' ' * 97, S(b' \n'), S(b' \t'), S(b' \n')], long=[';', 'x' * 300, '\n' * 30, S(b'\n ')], lines1000=['\n' * 998, S(b'\n '), S(b'\n ')])
    errs = dict(ERRORS); errs.pop('overlap'); errs.pop('utf'); errs.pop('utf2')
    errs.update(form2=' ld v1, v2, v3\n', lex5=' jp %\n', lex6=' ld v1, #\n', syn5=' .db x\n', syn6=' .db ,\n', syn7=' ld v1 v2 3\n', syn8=' .org\n', field2=' add v1, 999\n', equ2=' cls\n .equ 3\n', dup2='a: .equ 1\n nop\n  a: nop\n', undef2=' cls\n  ld I, nope\n', lex7=' cls @\n', syn9=' .db 1 2\n', lex8=' .db 1,&\n')
    for l, lay in layouts.items():
        for e, t in errs.items():
            if not th and l in ('lines1000', 'long', 'lines120') and not hash_pick(l + e, 4): continue
            J.append(src('%s_%s' % (l, e), lay, t, steps=100000000))
    # the error on the same line, to the right of multi-byte and multi-line text
    u2 = lambda: [S(range(0xc2, 0xe0)), S(range(0x80, 0xc0))]; u3 = lambda: [b'\xe2', S(range(0x80, 0xc0)), S(range(0x80, 0xc0))]
    left = dict(u2=[' .db "', u2(), '", '], u22=[' .db "', u2(), u2(), '",'], u3=[' .db "a', u3(), '",', S(b' \t')], u4=[' .db "', b'\xf0\x9f', S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), 'b", '], nl=[' .db "a\n', S(b'\n b'), S(b'\n c'), '", '], nlu=[' .db "', u2(), '\n', u2(), '",'], two=[' .db "', u2(), '", "\n', u2(), '", '], ws=[' .db 1,', b'\xc2\xa0', b'\xe3\x80\x80', S(b' \t')], wsl=[b'\xe2\x80', S(range(0x80, 0x8b)), ' .db 1,'], lab=['x: y: .db "', u2(), '", '], com=[';', u3(), '\n', ' .db "', u3(), '",'], equ=[';', u2(), '\nx: .equ 1 ;', u2(), '\n .db "\\', S(b'\\"'), '",'])
    right = dict(lex='@\n', hexl='$\n', bin='%\n', lit='4096\n', comma=',\n', ident='x\n', str='"abc\n', dot='.\n', col='1, :\n', br='[I]\n', two='1 2\n', byte='256\n', ind='[J]\n', uni=b'\xc3\xa9\n')
    for l, a in left.items():
        for r, t in right.items(): J.append(src('right_%s_%s' % (l, r), a, t)); J.append(src('right2_%s_%s' % (l, r), ' cls\n', a, S(b' \t'), t, ' ret\n'))
    # offending tokens of several characters, bytes per character and lines: where they begin and end
    bodies = dict(u2=[u2()], u22=['a', u2(), u2()], u3=[u3(), 'b'], u4=[b'\xf0\x9f', S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), S(PRINT)], nl=[S(b'\nab'), S(b'\n b'), u2(), S(b'\nc')], nl2=[u2(), '\n', u3(), '\n', S(PRINT)], esc=['\\', S(PRINT), u2()], asc=sy(3, PRINT), ctl=['a', S(b'\t\r\x0b\x00\x7f '), S(b'\tb'), 'c'], none=[], long=['x' * 300, S(b'yz"'), S(b'y"')], longu=['\u00e9' * 40, u2()])
    for b, t in bodies.items():
        for f, (p, q) in dict(ins=(' cls "', '"\n'), op=(' ld v1, "', '"\n'), lead=('"', '" cls\n'), lab=('x: "', '"\n'), fld=(' jp 5 "', '"\n'), arg=(' .db 1 "', '"\n'), two=(' .db "a" "', '"\n'), left=(' .db "', '" 5\n'), mid=(' drw v1, "', '", 3\n'), dot=(' ."', '"\n'), cm=(' ld v1, ;', '\n'), cm2=(' .org ;', '\n'), cm3=(' . ;', '\n')).items(): J.append(src('tok_%s_%s' % (b, f), S(b' \t\n'), p, t, q))
    for n in (1, 2, 3, 5, 9, 33, 70):
        w = lambda: [S(IDC), 'n' * (n - 1)] if n < 3 else [S(IDC), 'n' * (n - 2), S(b'o9_')]
        for f, (p, q) in dict(und=(' jp ', '\n'), mnem=(' ', ' v1\n'), dire=(' .', ' 1\n'), dup=('zz: cls\nzz: ', '\n'), arg=(' .db ', '\n'), after=(' jp 5 ', '\n')).items(): J.append(src('tokid%d_%s' % (n, f), S(b' \t\n'), p, w(), q))
        for f, p in dict(dec='4096', bin='%1000000000000', hexn=' cls $1').items(): J.append(src('toknum%d_%s' % (n, f), ' jp 5 ', p, ('0' if f != 'hexn' else '') * n, S(b'019'), '\n'))
    for n in (1, 2, 7, 13, 20, 40):   # a label defined again, whatever follows it
        w = 'L' * (n - 1)
        for f, q in dict(ins=' cls\n', nl='\n cls\n', db=' .db 1\n', equ=' .equ 5\n', lab=' q: ret\n', com=' ;x\n', op=' ld v1, v2\n', end='\n', org=' .org 5\n').items():
            c = S(b'abAB_'); J.append(src('again%d_%s' % (n, f), c, w, ': cls\n', S(b' \n\t'), S(b'abAB_') if n < 8 else c, w, ':', q)); J.append(src('again2%d_%s' % (n, f), 'p: ', c, w, ': ret\n jp ', c, w, '\no: ', S(b' \n'), c, w, ':', q))
    # text after the error does not matter; the first line of the diagnostic is the place
    for e, t in errs.items():
        if e in ('syn8', 'dir0'): pass
        J.append(src('tail_' + e, S(b' \n'), t, S(b'\n '), ' cls\n', S(b'; \n'), '\n')); J.append(Job('path_' + e, Run(T(S(b'\n '), t), infile='dir/file_1.asm'))); J.append(Job('std_' + e, Run(T(S(b'\n '), t), out='-')))
    J.append(Job('pathsym', Run(args=['c8s', T(S(IDC), S(IDC), '.s')], files=[('ab.s', b' jp @\n'), ('cd.s', b'\n  foo\n')])))
    # the error itself at a symbolic place
    J.append(src('field_at', ' ld v1,', S(b' \t\n'), S(b' \t'), '$', sy(3, HEXL), '\n')); J.append(src('lit_at', S(b' \n'), ' jp ', S(b' \t'), sy(4, DIG), '\n')); J.append(src('undef_at', ' jp', S(b' \t'), S(b' \t'), S(IDS), S(IDC), '\nab: cls\n')); J.append(src('dup_at', 'ab: cls\n', S(b' \n'), S(b'ab'), S(b'ab'), S(b' \t:'), ':\n'))
    for g, t in BASES.items(): replaced(J, g, t, ALL); inserted(J, g, t, ALL); deleted(J, g, t)
    if th:
        for g, t in BASES.items(): replaced(J, g + '2', t, ASCII, n=2)
        borrow(J, ['C02', 'C03', 'C04', 'C05', 'C06', 'C07'], 'quick', LOC)
    else: borrow(J, ['C02', 'C04', 'C05', 'C07'], 'quick', LOC, lambda j: hash_pick(j.name, 5))
    return Prop(12, LOC, J, '%d kinds of layout with symbolic bytes (comments, blank lines, multi-line and multi-byte strings, labels, up to 1000 lines and 300 columns) in front of %d kinds of error; small programs with one byte replaced, inserted or deleted' % (len(layouts), len(errs)), budget=400)

# ---------------------------------------------------------------------------------------------- relational helpers
def pair(name, a, b, mask=REL, kw1=None, kw2=None, steps=None): return Job(name, Run(T(*a), **(kw1 or {})), Run(T(*b), **(kw2 or {})), mask=mask, steps=steps)
def anycase(t):
    """The same text with every letter's case symbolic."""
    return [S([c, c ^ 32]) if chr(c).isalpha() else c for c in T(t)]
# ---------------------------------------------------------------------------------------------- C13
def c13(tier):
    J = []; th = tier == 'thorough'
    def both(name, *segs, mask=REL):
        """Segments: plain ones are kept, lists [text] vary in case."""
        a = []; b = []
        for s in segs:
            if isinstance(s, list): a += T(*s); b += anycase(s[0]) if len(s) == 1 and not isinstance(s[0], S) else T(*s)
            else: a += T(s); b += T(s)
        J.append(pair(name, a, b, mask=mask))
    for m, ops in FORMS:
        n = form_name(m, ops); segs = [' ', [m]]; sep = ' '
        for o in ops.split():
            segs.append(sep); sep = ', '
            segs.append({'x': ['vA'], 'y': ['vb'], 'a': '$123', 'n': '$12', 'h': '$1'}.get(o) or [o])
        both(n, *segs, '\n')
        for i in range(len(m)):
            if not th: break
            both('%s_%d' % (n, i), ' ', m[:i], [m[i]], m[i + 1:], *segs[2:], '\n')
        # against both canonical cases: all letters of the statement at once
        u = ''.join(x if isinstance(x, str) else x[0] for x in segs); J.append(pair(n + '_U', [u.upper().replace('X', 'X'), '\n'], [anycase(u), '\n'])); J.append(pair(n + '_lab', ['Lab_q: .equ 1\n', u, '\n'], ['Lab_q: .equ 1\n', anycase(u), '\n']))
    for m, ops in FORMS:     # operand through a mixed-case label, which stays as written
        if numeric(ops):
            t = stmt(m, ops, lambda k: ['LaB'], 'a', 'b'); segs = []; cur = ''
            for x in T(t): segs.append(x)
            s = bytes(segs).decode(); i = s.index('LaB'); J.append(pair(form_name(m, ops) + '_viaLabel', ['LaB: .equ 3\n ', s], ['LaB: .equ 3\n ', anycase(s[:i]), 'LaB', s[i + 3:]]))
    for r in range(16): J.append(pair('reg_%x' % r, [' ld v%x, v%x\n ld dt, v%x\n' % (r, 15 - r, r)], [' ld ', S(b'vV'), anycase('%x' % r), ', ', S(b'vV'), anycase('%x' % (15 - r)), '\n ld ', anycase('dt'), ', ', S(b'vV'), anycase('%x' % r), '\n']))
    for p in '$#':
        for n in (1, 2, 3):
            d = [S(b'abcdef') for _ in range(n)]; J.append(hexpair('hex%d_%s' % (n, {'$': 'd', '#': 'h'}[p]), [' jp ', p], n, '\n')); J.append(hexpair('hexorg%d_%s' % (n, {'$': 'd', '#': 'h'}[p]), [' .org ', p], n, '\n cls\n')); J.append(hexpair('hexequ%d_%s' % (n, {'$': 'd', '#': 'h'}[p]), ['k0: .equ ', p], n, '\n ld I, k0\n'))
        for n in (1, 2): J.append(hexpair('hexdb%d_%s' % (n, {'$': 'd', '#': 'h'}[p]), [' .db 1,', p], n, ',"aB"\n')); J.append(hexpair('hexld%d_%s' % (n, {'$': 'd', '#': 'h'}[p]), [' ld v1,', p], n, '\n'))
    for d, a in dict(db=' 1,"Ab"', org=' $2aB', equ=' 5').items():
        pre = 'Q: ' if d == 'equ' else ''; both('dir_' + d, pre, ' .', [d], a, '\n ld I, $00f\n'); J.append(pair('dirU_' + d, [pre, ' .', d.upper(), a, '\n cls\n'], [pre, ' .', anycase(d), a, '\n cls\n']))

    J.append(pair('mixed', [' .org $20a\nLoop: ld vb, $ff\n jp Loop\n .db "Text",$aB\n'], [' .', anycase('org'), ' $20', anycase('a'), '\nLoop: ', anycase('ld'), ' ', anycase('vb'), ', $', anycase('ff'), '\n ', anycase('jp'), ' Loop\n .', anycase('db'), ' "Text",$', anycase('aB'), '\n']))
    # rejected stays rejected: wrong operand kinds in any case
    for e in (' ld v1, st\n', ' ld k, v1\n', ' add dt, v1\n', ' jp v1, $123\n', ' cls v1\n', ' drw i, v1, 2\n', ' shl i\n', ' xyz\n', ' .bd 1\n', ' se i, 2\n', ' ld f, b\n', ' skp k\n', ' ld [I], dt\n', ' rnd i, 3\n', ' and v1, 3\n', ' ld b, 3\n'):
        J.append(pair('bad' + e.strip().replace(' ', '_').replace(',', ''), [e], [anycase(e)]))
    # labels: names differing in case only are different
    for w, nm in dict(a='ab', b='loop', c='x', d='V1x', e='_aZ').items():
        L = anycase(nm); J.append(src('lab_ref_' + w, nm, ': cls\n jp ', L, '\n', mask=A_LABEL | REJECT_GOOD)); J.append(src('lab_two_' + w, nm, ': cls\n', L, ': ret\n jp ', nm, '\n', mask=A_LABEL | REJECT_GOOD)); J.append(src('lab_equ_' + w, nm, ': .equ 5\n', L, ': .equ 9\n jp ', nm, '\n jp ', L, '\n', mask=A_LABEL | REJECT_GOOD | BYTES)); J.append(src('lab_mix_' + w, ' nop\n', nm, ':\n cls\n', L, ': .equ $', S(HEXL), '00\n jp ', nm, '\n jp ', L, '\n', mask=A_LABEL | REJECT_GOOD | BYTES)); J.append(src('lab_fwd_' + w, ' call ', L, '\n', nm, ': cls\n', mask=A_LABEL | REJECT_GOOD))
    J.append(src('lab_sym', S(ALPHA), S(ALPHA), 'q: cls\n jp ', S(ALPHA), S(ALPHA), 'q\n', mask=A_LABEL)); J.append(src('lab_sym2', S(ALPHA), S(ALPHA), 'q: cls\n', S(ALPHA), S(ALPHA), 'q: ret\n', mask=A_LABEL | REJECT_GOOD)); J.append(src('str_case', ' .db "', S(ALPHA), S(ALPHA), S(ALPHA), '"\n', mask=BYTES))
    return Prop(13, REL, J, 'for each of the %d instruction forms, three directives, all registers and hexadecimal literals: the program as written against the same program with the case of every letter symbolic (all 2^n assignments); the same for rejected forms; label names with every case assignment' % len(FORMS))
def hexpair(name, pre, n, post):
    """The same symbolic digits in lower case on one side and in upper case on the other."""
    d = [S(HEXL) for _ in range(n)]; return Job(name, Run(T(pre, d, post)), Run(T(pre, [Up(x) for x in d], post)), mask=REL)

# ---------------------------------------------------------------------------------------------- C14
GAPPED = dict(   # '^' marks a gap between tokens where white space may appear, '~' one where it must, '|' an end of line
  ins='^ld~v1^,^$2A^|', jp='^jp~x^|^x^:^cls^|', drw='^drw~va^,^vb^,^3^|', db='^.^db~1^,^"a b"^,^%1.1^|', org='^.^org~$200^|^ret^|', equ='^k9^:^.^equ~7^|^ld~v0^,^k9^|', ind='^ld~[I]^,^v3^|', labs='^a^:^b1^:^|^jp~a^|^call~b1^|', noop='^cls^|^ret^|', str='^.^db~"x;y"^|^.^db~0^|', dup='^a^:^|^a^:^|', bad='^ld~v1^,^256^|', badop='^cls~v1^|', undef='^jp~zz^|', over='^.^db~1^|^.^org~0^|^.^db~2^|', dirx='^.^foo~1^|')
def plain(t): return t.replace('^', '').replace('~', ' ').replace('|', '\n')
def c14(tier):
    J = []; th = tier == 'thorough'
    uws = [b'\xc2\xa0', b'\xe2\x80\x83', b'\xe3\x80\x80', b'\xc2\x85', b'\xe1\x9a\x80', b'\xe2\x80\xa8']
    ccom = bytes(c for c in range(0, 128) if c != 10)
    for g, t in GAPPED.items():
        base = plain(t); gaps = [i for i, c in enumerate(t) if c in '^~']; ends = [i for i, c in enumerate(t) if c == '|']
        fill = lambda at, f, end=lambda i: '\n': [f(i) if i in at and t[i] == '^' else ([' ', f(i)] if i in at else ('' if c == '^' else ' ' if c == '~' else end(i) if c == '|' else c)) for i, c in enumerate(t)]
        for k, i in enumerate(gaps):
            J.append(pair('%s_g%d' % (g, k), [base], fill([i], lambda _: S(WS)))); J.append(pair('%s_gg%d' % (g, k), [base], fill([i], lambda _: sy(3, WS))))
            if th or k % 3 == 0: J.append(pair('%s_gu%d' % (g, k), [base], fill([i], lambda _: uws[k % len(uws)]))); J.append(pair('%s_gl%d' % (g, k), [base], fill([i], lambda _: ' ' * 300 + '\t' * 5)))
            if th: J.append(pair('%s_gw%d' % (g, k), [base], fill([i], lambda _: [b'\xe2\x80', S(range(0x80, 0x8b))])))
        J.append(pair('%s_all' % g, [base], fill(gaps, lambda _: S(b' \t')))); J.append(pair('%s_all1' % g, [base], fill(gaps, lambda _: S(b'\r\x0c')))); J.append(pair('%s_all2' % g, [base], fill(gaps, lambda _: [' ', S(b'\t\r\x0b')])))
        for k, i in enumerate(ends):
            one = lambda f: fill([], None, lambda q: f if q == i else '\n')
            for n in (0, 1, 2, 3): J.append(pair('%s_c%d_%d' % (g, k, n), [base], one([' ;', sy(n, ccom), '\n'])))
            J.append(pair('%s_cc%d' % (g, k), [base], one(['; cls "', S(ccom), ';:$\\', '\n']))); J.append(pair('%s_cu%d' % (g, k), [base], one([' ; ', S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), b'\xe2\x82\xac\n']))); J.append(pair('%s_cl%d' % (g, k), [base], one([' ;', 'c' * 300, S(ccom), '\n'])))
            J.append(pair('%s_n%d' % (g, k), [base], one(['\n', S(b'\n \t\r'), '\n']))); J.append(pair('%s_nn%d' % (g, k), [base], one(['\n', sy(3, b'\n \t\r'), '\n']))); J.append(pair('%s_nl%d' % (g, k), [base], one('\n' * 200))); J.append(pair('%s_line%d' % (g, k), [base], one(['\n;', sy(2, ccom), '\n']))); J.append(pair('%s_line2_%d' % (g, k), [base], one(['\n ', S(WS), ';', S(ccom), '\n;', S(ccom), '\n\n']))); J.append(pair('%s_crlf%d' % (g, k), [base], one(['\r\n'])))
        J.append(pair('%s_head' % g, [base], [S(b'\n \t'), S(b'\n \t\r'), base])); J.append(pair('%s_headc' % g, [base], [';', sy(3, ccom), '\n', base])); J.append(pair('%s_tail' % g, [base], [base, S(b'\n \t\r'), S(b'\n \t\r')])); J.append(pair('%s_tailc' % g, [base], [base, ';', sy(2, ccom), S(b'\n')])); J.append(pair('%s_tailc2' % g, [base], [base, ' ; end', S(ccom)]))
        J.append(pair('%s_two' % g, [base], fill(gaps[:2], lambda _: S(WS), lambda q: [' ;', S(ccom), '\n', S(b'\n \t')])))
        J.append(pair('%s_labnl' % g, [base], [base.replace(':', ':\n').replace(':\n', ':\n ;x\n') if ':' in base and '":' not in base else base + '\n']))
    # whole small programs: comments of arbitrary text on every line
    prog = ' .org $200\nst: ld v1, 5\n k: .equ 3\n add v1, k\n jp st\n .db "a;b",k\n'.replace(',k\n', ',7\n')
    for n in (1, 2, 3): J.append(pair('prog_c%d' % n, [prog], [prog.replace('\n', '\x01').encode().replace(b'\x01', b'\n').decode().split('\n', 1)[0], ' ;', sy(n, ccom), '\n', prog.split('\n', 1)[1]]))
    J.append(pair('prog_all', [prog], [[l, ' ;', S(ccom), '\n'] for l in prog.split('\n') if l])); J.append(pair('prog_blank', [prog], [[l, '\n', S(b'\n \t\r;'), '\n'] for l in prog.split('\n') if l]))
    J.append(pair('prog_strip', ['  .org  $200  ; a\n\n\n  st :  ld   v1 , 5 ;', S(ccom), '\n jp st\n'], [' .org $200\nst: ld v1,5\n jp st\n']))
    return Prop(14, REL, J, '%d statement shapes (accepted and rejected) compared with themselves after filling each gap between tokens with 1 or 3 symbolic white-space characters (all ASCII white space; six Unicode ones; 300 blanks), all gaps at once, each line end with a comment of 0 to 3 arbitrary characters (or 300), comment lines, blank lines, CR LF' % len(GAPPED))

# ---------------------------------------------------------------------------------------------- C15
def c15(tier):
    J = []; th = tier == 'thorough'; A = lambda *a: ['c8s'] + list(a); NM = IDC + b'+@,'
    M = CLI | NODIAG | OTHERFILE | NOISE | IO | FAILTOUCH | REJECT_GOOD | FORMAT | BYTES
    F = lambda *more: [('in.s', T(' .db $', S(HEXL), '1\n'))] + list(more); B = lambda: [('in.s', b' jp nowhere\n')]
    def j(name, args, files=None, mask=None): J.append(Job(name, Run(args=args, files=F() if files is None else files), mask=mask))
    old = [('a.hex', b'old'), ('out.hex', b'OLD' * 40), ('-', b'dash')]
    for w, fs in dict(clean=[], old=old).items():
        f = F(*fs)
        j('default_' + w, A('in.s'), f); j('o_' + w, A('-o', 'out.hex', 'in.s'), f); j('o_after_' + w, A('in.s', '-o', 'out.hex'), f); j('long_' + w, A('--output', 'out.hex', 'in.s'), f); j('longeq_' + w, A('--output=out.hex', 'in.s'), f); j('longeq_after_' + w, A('in.s', '--output=out.hex'), f); j('glued_' + w, A('-oout.hex', 'in.s'), f); j('dd_' + w, A('-o', 'out.hex', '--', 'in.s'), f); j('dd2_' + w, A('--', 'in.s'), f)
        for n, a in dict(o=A('-o', '-', 'in.s'), glued=A('-o-', 'in.s'), long=A('--output', '-', 'in.s'), eq=A('--output=-', 'in.s'), after=A('in.s', '-o', '-'), dd=A('-o', '-', '--', 'in.s')).items(): j('std_%s_%s' % (n, w), a, f, M | FORMAT)
        for n, a in dict(h=A('-h'), help=A('--help'), v=A('-v'), version=A('--version'), hi=A('-h', 'in.s'), ih=A('in.s', '-h'), vi=A('-v', 'in.s'), iv=A('in.s', '--version'), ho=A('-h', '-o', 'out.hex', 'in.s'), oh=A('-o', 'out.hex', 'in.s', '--help'), vo=A('in.s', '-o', 'out.hex', '-v'), hx=A('-h', 'nofile'), vx=A('--version', 'nofile', 'other'), hh=A('--help', 'a', 'b', 'c'), hv=A('-h', '-v'), cl=A('-hv'), ho2=A('-ho', 'out.hex'), vo2=A('-voout.hex', 'in.s')).items(): j('info_%s_%s' % (n, w), a, f)
        for n, a in dict(none=A(), o=A('-o', 'out.hex'), two=A('in.s', 'in.s'), two2=A('in.s', 'out.hex'), three=A('in.s', 'b', 'c'), twoo=A('-o', 'out.hex', 'in.s', 'x'), miss=A('in.s', '-o'), missl=A('in.s', '--output'), unk=A('-x', 'in.s'), unkl=A('--frob', 'in.s'), flagarg=A('--help=1', 'in.s'), flagarg2=A('--version=', 'in.s'), dupo=A('-o', 'a', '-o', 'b', 'in.s'), dupl=A('-o', 'a', '--output=b', 'in.s'), nofile=A('nofile'), nofileo=A('-o', 'out.hex', 'nofile'), dd=A('--', 'in.s', 'x'), dd2=A('--'), ddo=A('in.s', '--', '-o'), emptyin=A(''), emptyo=A('-o', '', 'in.s'), dash=A('-', 'in.s'), abbr=A('--out', 'out.hex', 'in.s'), caps=A('-O', 'out.hex', 'in.s'), capsl=A('--OUTPUT', 'out.hex', 'in.s'), vers=A('--vers'), onedash=A('-output', 'out.hex', 'in.s'), q=A('-?'), ver1=A('-V'), hcap=A('-H')).items(): j('err_%s_%s' % (n, w), a, f)
    # output names: any characters
    for n in (1, 2, 3):
        nm = lambda: sy(n, NM); j('name%d_o' % n, A('-o', nm(), 'in.s')); j('name%d_glued' % n, A(T('-o', nm()), 'in.s')); j('name%d_eq' % n, A(T('--output=', nm()), 'in.s')); j('name%d_long' % n, A('in.s', '--output', nm())); j('name%d_bad' % n, A('-o', nm(), 'in.s'), B() + [('ab', b'old'), ('x', b'y')])
        if n < 3: j('nameany%d' % n, A('-o', sy(n, bytes(c for c in range(1, 128) if c not in b'/.')), 'in.s'), mask=M)
    j('name_like_in', A('-o', T('in.', S(IDC)), 'in.s'), mask=CLI | NODIAG | NOISE | IO | REJECT_GOOD);
    j('same', A('-o', 'in.s', 'in.s')); j('same_eq', A('in.s', '--output=in.s')); j('same_a', A('a.hex'), [('a.hex', T(' .db $', S(HEXL), '1\n'))]); j('same_bad', A('-o', 'in.s', 'in.s'), B()); j('name_ext', A('-o', T('out', S(IDC + b'.'), 'h', S(IDC), 'x'), 'in.s'), F(*old)); j('name_a', A('in.s', '-o', T('a.', S(b'hH'), S(b'eE'), 'x')), F(*old)); j('name_std', A('-o', T(S(b'-+_'), S(b'-_1')), 'in.s')); j('name_std2', A('-o', T(S(b'-+_x')), 'in.s'), mask=M | FORMAT)
    j('in_name', A(sy(4, b'in.sba')), F(('ab.s', b' cls\n'))); j('in_name2', A('-o', 'out.hex', T('in', S(ASCII[1:].replace(b'/', b'')), 's')), F(('inzs', b' cls\n'))); j('in_free_sym', A('-o', 'out.hex', sy(2, bytes(range(1, 128)).replace(b'/', b'').replace(b'.', b''))), F(('ab', b' cls\n'), ('-', b' ret\n')))
    # symbolic option letters and words, in front of and behind the input
    P1 = bytes(range(1, 128))
    j('opt1', A(T('-', S(P1)), 'in.s'), F(*old)); j('opt1_after', A('in.s', T('-', S(P1))), F(*old)); j('opt2', A(T('-', S(P1), S(P1)), 'in.s'), F(*old)); j('opt2_after', A('in.s', T('-', S(PRINT), S(PRINT)))); j('opt_any1', A(T(S(P1)), 'in.s')); j('opt_any2', A(T(S(P1), S(P1)), 'in.s')); j('opt_any2b', A('in.s', T(S(P1), S(P1))))
    j('opt_any_arg', A(T('-', S(PRINT)), T(S(PRINT), S(PRINT)), 'in.s')); j('opt_any_arg2', A('in.s', T('-', S(PRINT)), T(S(PRINT)))); j('long1', A(T('--', S(PRINT)), 'in.s')); j('long2', A(T('--', S(PRINT), S(PRINT)), 'in.s'))
    for wd in ('help', 'version', 'output'):
        for i in range(len(wd) + 1):
            if i < len(wd): j('lo_%s_%d' % (wd, i), A(T('--', wd[:i], S(PRINT), wd[i + 1:]), 'in.s')); j('los_%s_%d' % (wd, i), A(T('--', wd[:i]), 'in.s'))
            j('loi_%s_%d' % (wd, i), A(T('--', wd[:i], S(PRINT), wd[i:]), 'in.s')); 
            if wd == 'output': j('loe_%d' % i, A(T('--', wd[:i], S(PRINT), wd[i + 1:], '=xy'), 'in.s'))
    j('three', A(T('-', S(b'ohvx-')), T(S(b'-oa'), S(b'ohvx-')), 'in.s')); j('four', A(T('-', S(b'ohv')), 'p', T('-', S(b'ohv')), 'q', 'in.s')); j('clus', A(T('-', S(b'hvo'), S(b'hvox'), S(b'hvox')), 'in.s')); j('clus2', A('in.s', T('-', S(b'hvo'), S(b'hvo')), 'z'))
    # failing sources and inputs: nothing is written whatever the spelling
    for n, a in dict(d=A('bad.s'), o=A('-o', 'out.hex', 'bad.s'), std=A('bad.s', '-o', '-'), l=A('--output=out.hex', 'bad.s')).items(): j('src_' + n, a, [('bad.s', T(' jp ', S(b'xyz'), '\nx: cls\n'))] + old, mask=M); j('srcn_' + n, a, [('bad.s', T(' jp ', S(b'xyz'), '\nx: cls\n'))], mask=M)
    # the program may be called by any name
    for n, p in enumerate(['', './c8s', '/usr/bin/c8s', '-o', 'x y']): j('argv0_%d' % n, [p, 'in.s']); j('argv0h_%d' % n, [p, '-h']); j('argv0e_%d' % n, [p, '-z'])
    if th: j('opt3', A(T('-', S(P1), S(P1), S(P1)), 'in.s')); j('pair', A(T(S(PRINT), S(PRINT)), T(S(PRINT), S(PRINT)), 'in.s')); j('long3', A(T('--', S(PRINT), S(PRINT), S(PRINT)), 'in.s')); j('pair_after', A('in.s', T('-', S(PRINT)), T(S(PRINT), S(PRINT)))); j('triple', A(T('-', S(PRINT)), T('-', S(PRINT)), T('-', S(PRINT)), 'in.s'))
    return Prop(15, M, J, 'argument lists of 0 to 5 arguments: every spelling of each option before and after the input, output names of up to 3 symbolic characters, one- and two-letter options over all characters, long options with one character replaced or inserted and every prefix of them; previous contents of a.hex, the output file and a file called - present or absent')

# ---------------------------------------------------------------------------------------------- C17
def c17(tier):
    J = []; th = tier == 'thorough'; M = A_LEX | A_SYNTAX | A_DIR
    for n in range(1, 4): J.append(Job('raw%d' % n, Run(T(sy(n, ASCII), '\n')))); J.append(Job('rawmid%d' % n, Run(T(' cls\n', sy(n, ASCII if n < 3 or th else PRINT), '\n ret\n')))); J.append(Job('raweof%d' % n, Run(T(' cls\n', sy(n, ASCII if n < 3 else PRINT)))))
    if th: J.append(Job('raw4', Run(T(sy(4, PRINT + b'\n\t'), '\n'))))
    for g, t in BASES.items():
        replaced(J, g, t, ALL); inserted(J, g, t, ALL); deleted(J, g, t)
        replaced(J, g + '2', t, PRINT + b'\n' if th else b'\n \t,:;."$#%[]\\x1@', n=2); inserted(J, g + '2', t, PRINT + b'\n' if th else b'\n \t,:;."$#%[]\\x1@', n=2)
        for p in range(1, len(T(t))): J.append(Job('%s_t%d' % (g, p), Run(T(t)[:p - 1] + sy(1, ALL))))
    # each documented statement with a symbolic character at every place
    for m, ops in FORMS:
        t = bytes(T(' ', stmt(m, ops, lambda k: ['$1'], 'a', 'b'))); n = form_name(m, ops)
        if th or ops: inserted(J, 'f_' + n, t, bytes(c for c in ASCII), pos=None if th else range(0, len(t), 2)); replaced(J, 'f_' + n, t, ASCII, pos=None if th else range(1, len(t), 2))
    ctx = dict(op=(' ld v1,', '\n'), one=(' jp ', '\n'), db=(' .db ', '\n'), org=(' .org ', '\n cls\n'), equ=('k: .equ ', '\n jp k\n'), after=(' cls ', '\n'), afterop=(' ld v1, 2 ', '\n'), afterdb=(' .db 1 ', '\n'), afterlab=('x: ', '\n'), ind=(' ld [', '], v1\n'), dname=(' .', ' 1\n'), hexa=(' jp $', '\n'), hasha=(' jp #', '\n'), bina=(' jp %', '\n'), dbhex=(' .db 1,$', ',2\n'), lab=('', ': cls\n'), strq=(' .db "a', '\n'), strq2=(' .db "a"', '"b"\n'), comma=(' ld v1', 'v2\n'), comma2=(' .db 1', '2\n'), start=('', ' 1\n'))
    for c, (a, b) in ctx.items():
        J.append(Job('%s_1' % c, Run(T(a, sy(1, ALL), b)))); J.append(Job('%s_2' % c, Run(T(a, sy(2, ASCII), b)))); J.append(Job('%s_3' % c, Run(T(a, sy(3, PRINT + b'\n' if th else b'\n ,:;."$#%[]\\i1@VI'), b))))
        J.append(Job('%s_u' % c, Run(T(a, S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)), b)))); J.append(Job('%s_u3' % c, Run(T(a, b'\xe2', S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), b)))); J.append(Job('%s_u4' % c, Run(T(a, b'\xf0\x9f', S(range(0x80, 0xc0)), S(range(0x80, 0xc0)), b))))
        J.append(Job('%s_u3a' % c, Run(T(a, U3(), b)))); J.append(Job('%s_u4a' % c, Run(T(a, U4(), b))))
    for n, (a, b) in dict(first=('', ' cls\n'), first0=('', 'cls\n'), firstnl=('', '\n cls\n'), last=(' cls\n', ''), lastnl=(' cls\n', '\n'), only=('', ''), glue=(' jp 1', '\n'), glueid=(' jp x', '\nx: cls\n'), gluem=(' cl', 's\n'), lab=('x', ': jp x\n'), com=(' cls ;', '\n')).items():
        for w, u in dict(u2=lambda: [S(range(0xc2, 0xe0)), S(range(0x80, 0xc0))], u3=U3, u4=U4, c0=lambda: [S(bytes(range(0, 32)) + b'\x7f')], c2=lambda: sy(2, bytes(range(0, 32)) + b' \x7f')).items(): J.append(Job('pos_%s_%s' % (n, w), Run(T(a, u(), b))))
    # brackets that are not [I]
    for n, t in dict(a=['[', sy(3, b' iI\t]'), ']'], b=['[', S(b' iI'), sy(2, b' iI]'), ' '], c=['[', sy(2, b'iI '), '] '], d=[S(b'[ ('), S(b'iI'), S(b'] )}')], e=['[', sy(2, IDC), ']'], f=['[', S(PRINT), S(PRINT)], g=['[i', S(ASCII), ']'], h=['[', S(ASCII), 'I]']).items(): J.append(src('br_%s' % n, ' ld ', t, ', v1\n')); J.append(src('brr_%s' % n, ' ld v1, ', t, '\n'))
    # directive names
    for d, a in dict(db=' 1', org=' $200', equ=' 5').items():
        for i in range(len(d) + 1):
            if i < len(d): J.append(src('dn_%s_%d' % (d, i), 'k: .', d[:i], S(IDC), d[i + 1:], a, '\n cls\n')); J.append(src('dnd_%s_%d' % (d, i), 'k: .', d[:i], d[i + 1:], a, '\n cls\n'))
            J.append(src('dni_%s_%d' % (d, i), 'k: .', d[:i], S(IDC), d[i:], a, '\n cls\n'))
    for n in (1, 2, 3): J.append(src('dsym%d' % n, 'k: .', S(IDS), sy(n - 1, IDC), ' 1\n cls\n'))
    # where the error stands does not matter: far into the file, last line, after strings
    for w, t in dict(long=' nop\n' * 200, com='; x\n' * 50, data=' .db "' + 'x' * 500 + '"\n').items():
        J.append(src('far_' + w, t, ' cls', S(ASCII), '\n ret\n', steps=200000000)); J.append(src('far2_' + w, t, S(ASCII), '\n', t[:100].rsplit('\n', 1)[0] if w != 'data' else ' cls', '\n', steps=200000000)); J.append(src('farq_' + w, t, ' .db "abc', S(ASCII), '\n cls\n', steps=200000000))
    return Prop(17, M, J, 'all ASCII texts of up to 3 (thorough 4, printable) characters on a line of their own, at the start, middle and end of a file; small programs with one (any byte) or two (punctuation; thorough any printable) characters replaced or inserted at every place, one deleted, and every truncation; every documented statement with one character replaced or inserted; 1 to 3 symbolic characters in 21 contexts; directive names of up to 3 characters', budget=400)

# ---------------------------------------------------------------------------------------------- C18
def c18(tier):
    J = []; th = tier == 'thorough'; h = lambda: S(HEXL)
    progs = dict(two='a: jp b2\nb2: jp a\n', equ='k1: .equ 5\nk2: .equ 9\n ld v1,k1\n ld v2,k2\n', three='x1: cls\nx2: ret\nx3: nop\n jp x1\n jp x2\n jp x3\n', dup='a: cls\nb2: ret\na: nop\n', undef='a: jp zz\nb2: cls\n', none=' cls\n .db "x"\n', case='Ab: cls\nab: ret\n jp Ab\n jp ab\n', orgs=' .org $20\na: jp c3\n .org $10\nc3: jp a\n', nocase='Loop: cls\nlooP: ret\n jp loop\n', prefix='abc: cls\nabd: ret\n call ab\n', twobad='a: jp q1\nb2: jp q2\n', same='a:\nb2:\nc3: jp c3\n jp b2\n', dup2='a: .equ 1\nb2: .equ 2\na: .equ 1\nb2: .equ 2\n', eqmix='a: .equ 4\nA: cls\n ld v1, a\n jp A\n')
    progs.update(secs3=' .db 1\n .org 16\n .db 2\n .org 32\n .db 3\n', secs6=''.join(' .org %d\nq%d: jp q%d\n' % (i * 64, i, 5 - i) for i in (3, 1, 5, 0, 2, 4)), secs20=''.join(' .org %d\n .db %d\n' % (i * 32, i) for i in range(20)))
    for g, t in progs.items():
        if g.startswith('secs2') and not th: continue
        for n in (2, 3) + ((4,) if th else ()): J.append(pair('hash%d_%s' % (n, g), [t], [t], kw1=dict(hash=0), kw2=dict(hash=n)))
        J.append(pair('hh_%s' % g, [t], [t], kw1=dict(hash=2), kw2=dict(hash=2)))
    J.append(pair('hash_sym', *([[a, 'a: cls\n', b, 'b: ret\n jp ', a, 'a\n'] for a, b in [(S(b'xyz'), S(b'xyz'))]] * 2), kw2=dict(hash=2)))
    for k in (6, 12) + ((20,) if th else ()): t = ''.join('n%d: jp n%d\n' % (i, (i * 5 + 2) % k) for i in range(k)); J.append(pair('hashmany%d' % k, [t], [t], kw2=dict(hash=1 if k > 8 else 2)))
    texts = dict(progs, big=' .db "' + 'q' * 500 + '"\n jp e\ne: cls\n', utf=b' .db "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80",1\n; \xc3\xa9\n', bad=' jp @\n', badutf=b' cls ; \xc3\n', empty='', nl='\n', huge='; ' + 'x' * 9000 + '\n .db 1\n', crlf=' cls\r\n .db "a\r\nb"\r\n')
    for g, t in texts.items():
        for n in (1, 2, 3) + ((4, 5) if th else ()): J.append(pair('read%d_%s' % (n, g), [t], [t], kw2=dict(chunk=n), steps=200000000))
    J.append(pair('read_sym', *[[' .db "', s, t, '"\n'] for s, t in [(S(range(0xc2, 0xe0)), S(range(0x80, 0xc0)))] * 1] * 2, kw2=dict(chunk=3)))
    s3 = sy(3, ALL); J.append(pair('read_any', [' cls\n .db "', s3, '"\n'], [' cls\n .db "', s3, '"\n'], kw2=dict(chunk=2))); u = [S(range(0xe1, 0xed)), S(range(0x80, 0xc0)), S(range(0x80, 0xc0))]; J.append(pair('read_utf3', [' .db "', u, '"\n'], [' .db "', u, '"\n'], kw2=dict(chunk=3)))
    # the paths of the files
    for g, t in dict(progs, bad=' jp @\n', data=' .org $300\n .db 1,2,3\n').items():
        for n, p in enumerate(['x', 'a.hex.s', 'd/e/f.asm', './in.s', 'IN.S', 'x' * 200, 'in.hex', 'a b.s', 'é.s', '-in', 'in']):
            if not th and n > 4 and not hash_pick(g + p, 2): continue
            if p == '-in': J.append(pair('path%d_%s' % (n, g), [t], [t], kw2=dict(args=['c8s', '-o', 'out.hex', '--', '-in'], files=[('-in', T(t))])))
            else: J.append(pair('path%d_%s' % (n, g), [t], [t], kw2=dict(infile=p)))
        for n, o in enumerate(['-', 'o', 'd.s', 'a.hex', 'out.bin', 'x' * 100]): J.append(pair('out%d_%s' % (n, g), [t], [t], kw2=dict(out=o)))
        J.append(pair('pre_%s' % g, [t], [t], kw2=dict(pre=ODUMP))); J.append(pair('argv0_%s' % g, [t], [t], kw2=dict(args=['/opt/bin/other', '-o', 'out.hex', 'in.s'], files=[('in.s', T(t))]))); J.append(pair('dflt_%s' % g, [t], [t], kw2=dict(args=['c8s', 'in.s'], files=[('in.s', T(t)), ('extra.s', b' ret\n')])))
    nm = [S(IDC), S(IDC)]; J.append(pair('pathsym', [' .db 1,2\nx: jp x\n'], [' .db 1,2\nx: jp x\n'], kw2=dict(args=['c8s', '-o', 'out.hex', T(nm, '.s')], files=[(T(nm, '.s'), T(' .db 1,2\nx: jp x\n'))])))
    b = [S(HEXL), S(HEXL)]; J.append(pair('outsym', [' .db $', b, '\n'], [' .db $', b, '\n'], kw2=dict(out=T(S(IDC), S(IDC)))))
    # corrupted programs behave the same under both
    for g, t in BASES.items():
        bt = T(t)
        for p in range(0, len(bt), 2 if th else 4):
            s = S(ALL); m = bt[:p] + [s] + bt[p + 1:]; J.append(pair('mut_%s_%d' % (g, p), [m], [m], kw1=dict(hash=0), kw2=dict(hash=1, chunk=1, infile='other/name.txt', out='-')))
    return Prop(18, REL, J, 'labels whose hash values range over all assignments of 2 or 3 (thorough 4) distinct values, so every collision and iteration pattern of up to 3 names; inputs delivered in reads whose first 1 to 3 (thorough 5) sizes are one byte, half, all but one, all, or interrupted; paths of several shapes and two symbolic characters; previous contents of the output; any environment variable the code reads unset or one of 5 values, 4 clocks, 4 process ids')
NEW = dict(C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C17=c17, C18=c18)
