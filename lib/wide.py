"""Long stretches of symbolic text: comments, strings and names of which every character is symbolic, so that no particular word
in them can matter."""
from templates import *
from templates_b import ODUMP, pair

CM = bytes(c for c in range(1, 128) if c != 10); STS = dict(A=bytes(range(0x23, 0x5c)), a=bytes(range(0x5d, 0x7f)))   # one class of the string pattern each
U2 = lambda: [S(range(0xc2, 0xe0)), S(range(0x80, 0xc0))]
def extend(p, pid, tier):
    th = tier == 'thorough'; J = p.jobs; st = 100000000; n0 = len(J); ST = STS['a']
    def add(name, *parts, mask=None, **kw): J.append(Job('w_' + name, Run(T(*parts), **kw), mask=mask, steps=st))
    def two(name, a, b, **kw): J.append(pair('w_' + name, a, b, steps=st, **kw))
    CL = (4, 8, 16, 40) + ((5, 6, 7, 10, 12, 24, 32, 80) if th else ()); SL = CL; NL = (3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32, 40) + ((10, 11, 13, 20, 48, 64) if th else ())
    where = dict(own=(' .db 1\n', '', '\n cls\n'), end=(' .db 1', ' ', '\n cls\n'), first=('', '', '\n .db 1\n'), lab=('x: ', '', '\n cls\n jp x\n'), ins=(' ld v1, v2', '', '\n jp 5\n'), last=(' cls\n', '', '\n'), equ=('k1: .equ 5 ', '', '\n ld v1, k1\n'), org=(' .org $200 ', '', '\n ret\n'), str=(' .db "a;b", 2', ' ', '\n'))
    if pid == 'C14':
        for n in CL:
            for w, (a, g, b) in where.items():
                two('com%d_%s' % (n, w), [a, b], [a, g, ';', sy(n, CM), b]); 
                if n <= 16: two('comu%d_%s' % (n, w), [a, b], [a, g, ';', sy(n - 2, ST), U2(), b])
            two('com2_%d' % n, [' cls\n ret\n'], [';', sy(n, CM), '\n cls ;', sy(n, CM), '\n;', sy(n // 2, CM), '\n ret\n'])
    if pid in ('C10', 'C11', 'C18', 'C09', 'C07'):
        for n in CL:
            for w, (a, g, b) in where.items():
                t = [a, g, ';', sy(n, CM), b]
                if pid == 'C18': two('com%d_%s' % (n, w), t, t, kw2=dict(infile='d/e.s', pre=ODUMP, out='o'))
                else: add('com%d_%s' % (n, w), t)
    if pid in ('C06', 'C11', 'C09', 'C10', 'C18'):
        for n, (cn, ST) in ((n, c) for n in SL for c in STS.items()):
            for w, (a, b) in dict(one=(' .db "', '"\n'), mid=(' .db 1,"', '",2\n'), org=(' .org $2f0\n .db "', '"\nx: jp x\n'), two=(' .db "ab" , "', '"\n .db "cd"\n'), com=(' .db "', '" ; "c"\n cls\n')).items():
                t = [a, sy(n, ST), b]
                if pid == 'C18': two('str%d%s_%s' % (n, cn, w), t, t, kw2=dict(infile='d/e.s', chunk=1))
                else: add('str%d%s_%s' % (n, cn, w), t); add('strnl%d%s_%s' % (n, cn, w), a, sy(n // 2, ST), '\n', sy(n // 2, ST), U2(), b)
        if pid == 'C06':
            for n in (8, 20, 33) + ((64,) if th else ()): add('nums%d' % n, ' .db ', [['$', S(HEXL), S(HEXL), ',' if i < n - 1 else '\n'] for i in range(n)])
    ST = STS['a']
    def nm(n, style=None):
        style = style if style is not None else n % 4
        if style == 0: return sy(n, LOW)
        if style == 1: return sy(n, UPP)
        if style == 2: return [S(LOW)] + [('_' if i % 4 == 3 else S(LOW)) for i in range(1, n - 1)] + [S(DIG)]
        return [S(UPP)] + sy(n - 2, LOW) + [S(DIG)] if n % 3 else ['_'] + sy(n - 1, LOW)
    if pid in ('C04', 'C05', 'C11', 'C18', 'C01', 'C10', 'C07'):
        for n in NL:
            if pid not in ('C04', 'C05') and n % 4 and not th: continue
            a = nm(n); b = nm(n)
            for sty in range(4): z = nm(n, sty); add('sty%d_%d' % (n, sty), ' cls\n', z, ': ret\n jp ', z, '\n') if pid == 'C04' else None
            def q(name, *t):
                if pid == 'C18': two(name, t, t, kw2=dict(infile='d/e.s', chunk=1))
                else: add(name, *t)
            q('def%d' % n, ' cls\n', a, ': ret\n jp ', a, '\n'); q('fwd%d' % n, ' call ', a, '\n .db 1,2\n', a, ': ret\n'); q('equ%d' % n, a, ': .equ $', S(HEXL), '7c\n ld I, ', a, '\n')
            if n <= 9: q('two%d' % n, a, ': cls\n', b, ': ret\n jp ', a, '\n jp ', b, '\n')
            q('case%d' % n, a, ': cls\n', a, '_: ret\n _q: nop\n jp ', a, '_\n jp ', a, '\n'); q('orgs%d' % n, ' .org $300\n', a, ': cls\n .org $100\n ret\n jp ', a, '\n .org $400\n jp ', a, '\n')
            q('equback%d' % n, a, ': .equ $123\n .org $300\n cls\n .org $100\n ld I, ', a, '\n')
            if pid == 'C04': add('undef%d' % n, 'loop: cls\n jp ', a, '\n'); add('dup%d' % n, a, ': cls\n', a, ': ret\n')
    if pid in ('C04', 'C05', 'C18', 'C19', 'C10'):   # names that extend one another
        for w, base in dict(s='go', l='wait_key', u='_x', c='MAIN').items():
            for k in (1, 2, 3, 4, 5, 8):
                for v, x in dict(low=lambda: sy(k, LOW), und=lambda: ['_'] + sy(k, LOW), dig=lambda: ['_'] + sy(k, DIG), upp=lambda: sy(k, UPP), dd=lambda: ['__'] + sy(k, LOW)).items():
                    if k > 3 and v in ('dd', 'upp', 'dig') and not th: continue
                    y = x(); pre = [y, '_', base]; suf = [base, y]
                    if v != 'dig': pre = [[c for c in y if c != '_'], base]
                    for o, long_ in dict(suf=suf, pre=pre).items():
                        if o == 'pre' and v == 'dig': continue
                        t = [base, ': cls\n', long_, ': ret\n jp ', long_, '\n jp ', base, '\n']; t2 = [' call ', base, '\n', long_, ': .equ $321\n ret\n', base, ': ld I, ', long_, '\n']; bad = [base, ': cls\n jp ', long_, '\n']; bad2 = [long_, ': cls\n jp ', base, '\n']
                        nme = 'ext_%s%d_%s_%s' % (w, k, v, o)
                        if pid == 'C18': two(nme, t, t, kw2=dict(infile='d/e.s', chunk=1)) if k < 3 else None; continue
                        if pid in ('C04', 'C05', 'C10') and (pid == 'C04' or k in (1, 3, 4)): add(nme, t); add(nme + 'e', t2)
                        if pid in ('C04', 'C19'): add(nme + 'b', bad); add(nme + 'c', bad2)
    if pid in ('C12', 'C19'):
        for n in NL:
            a = nm(n)
            add('undef%d' % n, ' cls\n jp ', a, '\n'); add('dup%d' % n, a, ': cls\n .db 1\n', a, ': ret\n'); add('mnem%d' % n, ' ', a, ' v1, 2\n'); add('dire%d' % n, ' .', a, ' 1\n'); add('dire0%d' % n, 'x: .', a, '\n')
            for w, e in dict(und=' jp zz\n', lit=' .db 4096\n', mn=' foo\n', dr=' .bar\n', fld=' ld v1, 300\n', lex=' @\n').items():
                if n in (8, 16, 40): add('after_com%d_%s' % (n, w), ' cls ;', sy(n, CM), '\n;', sy(n // 2, CM), '\n', e); add('after_str%d_%s' % (n, w), ' .db "', sy(n, ST), '"\n', e)
                if n in (8, 16): add('after_lab%d_%s' % (n, w), a, ': cls\n', e); add('before_com%d_%s' % (n, w), e[:-1], ' ;', sy(n, CM), '\n')
    if pid in ('C02', 'C17'):
        for n in NL:
            a = nm(n)
            if pid == 'C02':
                for w, o in dict(none='', x=' v1', xy=' v1, v2', xn=' v1, 7', a=' 5', drw=' v1, v2, 3', i=' I, 5').items():
                    if n <= 8 or w == 'none': add('mnem%d_%s' % (n, w), ' ', a, o, '\n')
            else:
                add('dire%d' % n, ' .', a, ' 1\n'); add('dire0%d' % n, ' .', a, '\n'); add('dbid%d' % n, ' .db ', a, '\n'); add('orgid%d' % n, ' .org ', a, '\n'); add('nocolon%d' % n, a, ' x: cls\n'); add('twoid%d' % n, ' ld v1 ', a, '\n')
        if pid == 'C17':
            for n in SL: add('open%d' % n, ' .db "', sy(n, ST), '\n'); add('opstr%d' % n, ' ld v1, "', sy(n, ST), '"\n'); add('strst%d' % n, '"', sy(n, ST), '"\n'); add('strstr%d' % n, ' .db "', sy(n, ST), '" "', sy(n, ST), '"\n')
    if pid == 'C13':
        for n in NL:
            low = sy(n, LOW)
            if n in (8, 16, 32): two('names%d' % n, [' ld v1, 2\n', low, ': cls\n JP ', low, '\n'], [' LD V1, 2\n', low, ': CLS\n jp ', low, '\n'])
    if pid == 'C03':
        for c, f in dict(jp=lambda l: [' jp ', l, '\n'], db=lambda l: [' .db ', l, '\n'], org=lambda l: [' .org ', l, '\n .db 7\n'], equ=lambda l: ['kk: .equ ', l, '\n ld I, kk\n']).items():
            for z in (8, 20, 40, 100): add('zz%d_%s' % (z, c), f(['0' * z, S(DIG), S(DIG)])); add('zb%d_%s' % (z, c), f(['%', sy(3, b'0.'), '0' * (z - 3), sy(3, BIN)]))
    if len(J) > n0: p.bounds += '; comments, strings and names of 3 to 40 (thorough 80) characters, every one of them symbolic'
    return p
