"""Composite programs: many features side by side (sections in any order, names that resemble one another, constants, data,
comments, layout), each with a few symbolic bytes. The structure comes from a generator with a fixed seed, so the questions are
the same on every run; the values and the chosen characters are decided by the solver."""
import random
from templates import *
from templates_b import ERRORS, ODUMP, pair

class Gap:
    def __init__(self, kind, text): self.kind, self.text = kind, text
class CI:
    """Text whose letter case does not matter."""
    def __init__(self, text): self.text = text

STEMS = ['a', 'x1', 'loop', 'Loop', 'wait_for_key', 'draw_sprite_', 'l0', 'score', 'data', 'org', 'db', 'equ', 'cls', 'ld', 'jp', 'v10', 'vg', 'dtx', 'sta', 'ii', 'bb', 'kk', 'f_', 'main', 'START', 'end', 'tmp9', 'very_long_name_of_a_subroutine_', 'aLongerNameWithCapitals', 'n' * 16, 'm' * 31, 'q' * 33]
RESERVED = {'i', 'k', 'f', 'b', 'dt', 'st'} | {'v%x' % i for i in range(16)}
COMMENTS = ['; text', ';;; x', ';', '; "unclosed', '; .org 5', ';x: cls', '; a, b: "c" ; d', ';-----------------------------', '; caf\u00e9 \u20ac', ';\t\ttabs', '; $ % # @ ~', '; 100%', ';;']
STR = [c for c in map(chr, range(32, 127)) if c not in '"\\']

class G:
    def __init__(self, seed, nsym):
        self.r = random.Random(seed); self.left = nsym; self.names = []; self.used = set()
    def pick(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def sym(self, chars, d, w=0.4):
        """One character: symbolic over chars while the budget lasts, otherwise d."""
        if self.left > 0 and self.p(w): self.left -= 1; return S(chars if isinstance(chars, bytes) else chars.encode())
        return d
    def name(self):
        r = self.r
        for _ in range(100):
            if self.names and self.p(0.45):   # a near miss of an earlier one
                n = r.choice(self.names); k = r.randrange(7)
                n = [n + r.choice('ab_09'), n[:-1] + r.choice('xyzXYZ_2'), n.swapcase(), n.upper(), '_' + n, n * 2, n[:1] + r.choice('_ab') + n[1:]][k]
            else: n = r.choice(['', '', '_', '__', '___']) + r.choice(STEMS) + r.choice(['', '', '2', '_b', 'B', '00', '_' ])
            if len(n) < 90 and n and n not in self.used and n.lower() not in RESERVED and (n[0].isalpha() or n[0] == '_'): break
        else: n = 'u%d' % len(self.names)
        self.names.append(n); self.used.add(n); return n
    # ---- layout
    def req(self): return Gap('req', self.pick(' ', ' ', '  ', '\t', ' \t', '        '))
    def opt(self): return Gap('opt', self.pick('', '', '', ' ', '  ', '\t'))
    def comma(self): return [Gap('opt', self.pick('', '', ' ')), ',', Gap('opt', self.pick('', ' ', ' ', '\t'))]
    def eol(self):
        c = self.pick('', '', '', ' ', '\r', '\t')
        if self.p(0.2): c += self.pick(' ', '') + self.r.choice(COMMENTS)
        out = [Gap('eol', c), '\n']
        while self.p(0.15): out += [Gap('line', self.pick('', '', ' ', self.r.choice(COMMENTS), '  ' + self.r.choice(COMMENTS))), '\n']
        return out
    # ---- operands
    def lit(self, k):
        v = self.r.randrange(16 ** HL[k]) if self.p(0.8) else self.pick(0, 1, 16 ** HL[k] - 1); w = HL[k]
        s = self.r.randrange(6)
        if s <= 2:
            t = list('%0*x' % (w if self.p(0.5) else 1, v)); t[-1] = self.sym(HEX if self.p(0.2) else HEXL, t[-1]); return [self.pick('$', '#', '$'), [CI(c) if isinstance(c, str) else c for c in t]]
        if s <= 4:
            t = list(str(v)); 
            if v // 10 * 10 + 9 < 16 ** w: t[-1] = self.sym(DIG, t[-1])
            return ['0' * self.pick(0, 0, 0, 1, 3), t]
        t = list(bin(v)[2:]); i = self.r.randrange(len(t)); t = [self.pick('0', '.') if c == '0' else c for c in t]; t[i] = self.sym(b'01.', t[i]); return ['%', '.' * self.pick(0, 0, 2, 9), t]
    def reg(self):
        x = '%x' % self.r.randrange(16); return [CI('v'), self.sym(HEXL, CI(x), 0.25)]
    def ins(self):
        m, ops = self.r.choice(FORMS); out = [CI(m)]; first = True
        for o in ops.split():
            out.append(self.req() if first else self.comma()); first = False
            if o in 'xy': out.append(self.reg())
            elif o in 'anh':
                pool = dict(a=self.addr + self.const + self.small, n=self.small, h=self.small)[o]
                out.append(self.r.choice(pool) if pool and self.p(0.6) else self.lit(o))
            else: out.append(CI(o))
        return out, 2
    def string(self, cap):
        t = []; n = 0
        for _ in range(self.r.randrange(0, min(cap, self.pick(3, 10, 24)) + 1)):
            k = self.r.randrange(30)
            c = '\\' + self.pick('"', '\\', 'n', 'x') if k == 0 else self.pick('\u00e9', '\u20ac', '\U0001f600') if k == 1 else '\n' if k == 2 and self.p(0.3) else self.r.choice(STR)
            if n + len(c.encode()) > cap: break
            t.append(c); n += len(c.encode())
        if n < cap and self.p(0.3): t.append(self.sym(''.join(STR), 'z')); n += 1
        return ['"', t, '"'], n
    def db(self, cap):
        out = ['.', CI('db'), self.req()]; n = 0
        for i in range(self.pick(1, 1, 2, 3, 5, 9)):
            if i: out.append(self.comma())
            if cap - n > 1 and self.p(0.4): s, k = self.string(min(cap - n, 30)); out.append(s); n += k
            elif cap - n >= 1: out.append(self.lit('n')); n += 1
            else: out.append('""')
        return out, n
    # ---- programs
    def body(self, cap, labels):
        out = []; n = 0; todo = list(labels); k = self.r.randrange(1, 7)
        for i in range(max(k, len(todo))):
            if todo and (self.p(0.7) or i >= k):
                q = todo.pop(0); out += [self.opt(), q, ':', Gap('lab', self.pick(' ', ' ', '\n', '\n  ', '', ' ;;; entry\n', '\n\n; again\n'))]
                if self.p(0.2) and todo: out += [todo.pop(0), ':', Gap('lab', ' ')]
            elif self.pend and self.p(0.5): out += self.constant(); continue
            else: out.append(Gap('lead', self.pick(' ', '  ', '\t', '')))
            if cap - n < 4: out.append('\n'); continue
            s, c = self.ins() if self.p(0.65) else self.db(min(cap - n, 40)); n += c; out += [s, self.eol()]
        while self.pend and self.p(0.6): out += self.constant()
        return out, n
    def constant(self):
        q, small = self.pend.pop(0); l = ['$', self.sym(HEXL, CI('7'))] if small else self.lit('a')
        return [self.opt(), q, ':', Gap('lab', self.pick(' ', ' ', '\n')), '.', CI('equ'), self.req(), l, self.eol()]
    def program(self):
        ns = self.pick(1, 1, 2, 2, 3, 4, 5, 6, 9, 14); nl = self.pick(0, 1, 2, 4, 8); self.slots = []
        self.addr = [self.name() for _ in range(nl)]; self.const = [self.name() for _ in range(self.pick(0, 0, 1, 2))]; self.small = [self.name() for _ in range(self.pick(0, 1, 1, 3))]
        self.pend = [(q, False) for q in self.const] + [(q, True) for q in self.small]; self.r.shuffle(self.pend)
        bases = self.r.sample(range(1, 16), ns); how = self.pick('any', 'any', 'up', 'down')
        if how == 'up': bases.sort()
        if how == 'down': bases.sort(reverse=True)
        labs = list(self.addr); self.r.shuffle(labs); out = []; same = None
        while self.p(0.3): out += [Gap('line', self.r.choice(COMMENTS + ['', ' '])), '\n']
        for i, b in enumerate(bases):
            if i == 0 and self.p(0.4): base = [0]   # no .org: the program begins at 0
            else:
                lo = self.pick(0, 0, 0x10, 0x80); out += [self.opt(), '.', CI('org'), self.req(), '$', CI('%x' % b), '%x' % (lo >> 4), self.sym(HEXL, '0', 0.15), self.eol()]
            mine = [labs.pop() for _ in range(len(labs) // (ns - i))] if i < ns - 1 else labs
            if same is not None and self.p(0.5): out += same; continue
            t, n = self.body(self.pick(4, 20, 60, 100), mine)
            if not mine and not self.pend and same is None: same = t if not any(isinstance(c, str) and c in self.used for c in t) else None
            out += t
        while self.pend: out += self.constant()
        self.parts = out; return out

def lines(parts):
    """Positions in the parts after which a statement may be inserted."""
    return [0] + [i + 1 for i, c in enumerate(parts) if c == '\n']
def flat(parts):
    for c in parts:
        if isinstance(c, (list, tuple)): yield from flat(c)
        else: yield c
def render(parts, gap=lambda g: g.text, ci=lambda c: c.text): return [gap(c) if isinstance(c, Gap) else ci(c) if isinstance(c, CI) else c for c in flat(parts)]

def wrong(g, pid):
    """A rejected statement, and whether it needs nothing else: built around the names of the program."""
    r = g.r; n = g.name(); old = r.choice(g.addr + g.const + g.small + [n]); reg = ['v', g.sym(HEXL, '3')]
    k = dict(
      form=[[' ', r.choice(MNEMONICS), ' v1, v2, v3, v4\n'], [' cls ', reg, '\n'], [' drw v1, ', reg, '\n'], [' ', n, ' v1\n'], [' ', n, '\n'], [' jp ', reg, ', ', reg, '\n'], [' shr v1', ', v2' * r.choice([1, 2, 15, 16, 17, 31, 32, 33]), '\n'], [' ld ', '5, ' * r.choice([1, 7, 8, 15, 16]), 'v1, v2\n'], [' ', r.choice(['trapret', 'nop', 'ret']), ' ', old, '\n'], [' add ', reg, ', [I]\n'], [' ', r.choice(MNEMONICS), ', v1\n'], [' ld v1', ', v2' * r.choice([2, 3, 8, 9, 17]), '\n']],
      field=[[' ld ', reg, ', $1', g.sym(HEXL, '0'), '0\n'], [' drw v1, v2, ', g.sym(b'123', '2'), '9\n'], [' rnd v1, 25', g.sym(b'6789', '7'), '\n'], [' se v2, $fff\n']],
      lit=[[' jp ', g.sym(b'456789', '5'), '096\n'], [' .db 4', g.sym(b'123456789', '1'), '00\n'], [' jp %1', g.sym(b'01.', '0'), '00000000000\n'], [n, ': .equ 99999\n'], [' .org 18446744073709551616\n'], [' ld v1, 4294967297\n']],
      label=[[' jp ', n, 'zz\n'], [' call ', n, '_1', g.sym(b'abc', 'a'), '\n'], [old if old != n else n + ': cls\n' + n, ':', r.choice([' cls\n', '\n', ' .db 1\n', ' .equ 5\n'])], [' ld I, ', n.swapcase() + 'Q', '\n']],
      equ=[[' cls\n .equ ', g.lit('a'), '\n'], [n, ': .equ "x"\n'], [n, ': .equ 1, 2\n'], [n, ': .equ\n'], [' .db 1\n .equ 3\n']],
      db=[[' .db 1, 2, $1', g.sym(HEXL, '0'), '0\n'], [' .db\n'], [' .db "', 'x' * r.choice([1, 31, 40]), '", 256\n'], [' .db ', '1, ' * r.choice([3, 16, 33]), '999\n']],
      mem=[[' .org $ff', g.sym(b'ef', 'f'), '\n cls\n'], [' .org $ff8\n .db "', 'y' * r.choice([9, 16, 30]), '"\n'], [' .org "a"\n'], [' .org 1, 2\n'], [' .org\n']],
      lex=[[' jp @\n'], [' ld v1, $\n'], [' .db %2\n'], [' ', n, ' ~\n'], [' .db "open\n'], [' ld [', g.sym(b'jJxk', 'j'), '], v1\n'], [' cls ?\n'], [' .db \'a\'\n'], [' cls \u00e9\n'], [' jp -1\n']],
      syn=[[' ld v1,, v2\n'], [g.sym(DIG, '1'), '23\n'], [':\n'], [n, ' :: cls\n'], [' .db 1 2\n'], [' .db , 1\n'], [' .\n'], [' . 5\n'], [' ld "x", v1\n'], ['"abc"\n'], [' .db ', n, '\n'], [' jp 5, :\n'], ['[I]: cls\n' if False else ', cls\n'], [' .db 1, ', n, '\n']],
      dir=[[' .', n, ' 5\n'], [' .', n, '\n'], [' .include "x"\n'], [' .', r.choice(['orgs', 'dbb', 'd', 'equal', 'dw', 'set']), ' ', g.lit('n'), '\n']],
      over=[['@over']])
    kinds = dict(C02=['form', 'field'], C03=['lit'], C04=['label'], C05=['equ'], C06=['db'], C07=['mem'], C08=['over'], C17=['lex', 'syn', 'dir'], C12=['form', 'field', 'lit', 'label', 'equ', 'db', 'mem', 'lex', 'syn', 'dir'], C19=['form', 'field', 'lit', 'label', 'db', 'lex', 'dir', 'over', 'over'], C10=list(k)).get(pid)
    return r.choice(k[r.choice(kinds)]) if kinds else None

def overlapped(g, parts):
    """The program with one more section, somewhere over an earlier one."""
    orgs = [i for i, c in enumerate(flat(parts)) if isinstance(c, CI) and c.text == 'org']; f = list(flat(parts))
    if orgs and g.p(0.8): i = g.r.choice(orgs); a = render([f[i + 3]])[0]; t = [' .org $', a, g.pick('0', '0', '1', '8'), S(HEXL), '\n']
    else: t = [' .org $0', g.pick('0', '0', '1'), S(HEXL), '\n']
    return f + t + list(flat(g.pick([' cls\n'], [' .db 1\n'], [' .db "abcdefgh"\n'], [' cls\n ret\n'])))

COUNT = dict(C01=300, C02=500, C03=400, C04=600, C05=500, C06=400, C07=400, C08=500, C09=400, C10=200, C11=120, C12=600, C13=500, C14=300, C17=500, C18=400, C19=500)
def extend(p, pid, tier):
    th = tier == 'thorough'
    if pid not in COUNT: return p
    J = p.jobs; st = 100000000
    for i in range(COUNT[pid] * (8 if th else 1)):
        seed = '%s-%d' % (pid, i); ns = 3 + i % 3
        if pid in ('C13', 'C14', 'C18'): ns = 1
        g = G(seed, ns); parts = g.program(); name = 'm_%d' % i
        if pid == 'C13':
            m = [int(g.p(0.5)) for _ in range(4)]; left = [10]
            def ci(c):
                out = []
                for ch in c.text:
                    if ch.isalpha() and left[0] and g.p(0.15): left[0] -= 1; out.append(S([ord(ch.lower()), ord(ch.upper())]))
                    elif g.p(0.2): out.append(ch.upper())
                    else: out.append(ch)
                return out
            J.append(pair(name, render(parts), render(parts, ci=ci), steps=st)); continue
        if pid == 'C14':
            left = [4]; WSC = b' \t\r'; CC = b'\x00;"$ x\r\t:,.\\' if i % 4 else bytes(c for c in range(1, 128) if c != 10)
            def gap(c):
                if not left[0] or not g.p(0.15): return c.text
                left[0] -= 1; k = c.kind
                if k == 'req': return [S(WSC), g.pick([], [S(WSC)], '   ')]
                if k in ('opt', 'lead'): return g.pick([S(WSC)], [], ['  '], [S(WSC), S(WSC)])
                if k == 'eol': return g.pick([S(WSC)], [';', S(CC), S(CC)], [' ;', S(CC), 'x', S(CC)], ['  ; ', S(CC)], [])
                if k == 'line': return g.pick([S(WSC)], [';', S(CC), S(CC), S(CC)], ['\n', S(WSC + b'\n')], [' ;', S(CC), '\n', ';', S(CC)], [';', S(b';x'), S(b';x'), S(CC), '\n\n'])
                return g.pick([S(WSC)], [S(WSC + b'\n')], [';', S(CC), S(CC), '\n'], ['\n', S(WSC + b'\n'), ' '], [' ;', S(b';x'), S(b';x'), '\n\n;', S(CC), '\n'], [])
            base = render(parts); b = render(parts, gap)
            J.append(pair(name, base, b, steps=st)); continue
        if pid == 'C18':
            t = render(parts); k = i % 6
            kw = [dict(infile='./in.s'), dict(infile=g.pick('d/x.asm', 'A.HEX', 'in', 'x' * 60, 'a b.s')), dict(hash=2), dict(chunk=2), dict(out=g.pick('-', 'o', 'o2.hex', 'b.bin'), hash=1), dict(pre=ODUMP, chunk=1, infile='other.s')][k]
            J.append(pair(name, t, t, kw2=kw, steps=st)); continue
        if pid == 'C11':
            t = T(render(parts)); 
            for _ in range(g.pick(1, 1, 2)): q = g.r.randrange(len(t)); t[q:q + g.pick(0, 1, 1)] = [S(ALL)]
            J.append(Job(name, Run(t), steps=st)); continue
        bad = wrong(g, pid) if pid in ('C12', 'C19') or g.p(0.5) else None
        if bad == ['@over']: parts = overlapped(g, parts); t = render(parts)
        elif bad:
            q = g.r.choice(lines(list(flat(parts)))); f = list(flat(parts)); t = render(f[:q]) + render([bad]) + render(f[q:])
        else: t = render(parts)
        kw = {}
        if pid == 'C10': kw = dict(faults=(1, 'ocrwse')) if g.p(0.5) else {}; kw.update(g.pick({}, dict(pre=ODUMP), dict(out='-')))
        J.append(Job(name, Run(T(t), **kw), steps=st))
    p.bounds += '; %d composite programs (up to 14 sections in any order, similar names, constants, data, comments) with 3 to 10 symbolic bytes each' % (COUNT[pid] * (8 if th else 1))
    return p
