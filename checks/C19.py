#!/usr/bin/env python3
"""C19: the symbol table lists every user symbol once, sorted, with its value and its mark.

Two sources of programs: lib/gen.py (whose truth includes the table), and programs written
here that define symbols of every kind in every place (main file, taken and skipped
branches, include files, macro expansions, DUMMY sections, between CPU directives) and
use them, or not, in every way.  Monitor: the table after the summary, read cell by cell,
equals the expected list - in order, with marks, kinds and values - whatever the page size.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import listing  # noqa: E402

REGS = {'Z80': ['a', 'b', 'c', 'd', 'e', 'h', 'l'], '6502': [], '6801': []}
NOP = {'Z80': ('nop', 1), '6502': ('nop', 1), '6801': ('nop', 1)}
OTHERS = {'Z80': ['ldir', 'halt', 'ret', 'ld'], '6502': ['lda', 'rts', 'bcc'], '6801': ['ldaa', 'rts', 'mul'], None: ['db', 'ds']}
RESERVED = set('''EQU ASC ALIGN CLIST CODE CPU DB DDB DL DW DUMMY DS ELSE ENDC ENDM EXITM FAIL IF ILIST INCLUDE LIST
MACRO MLIST NAM PAGE OUTPUT SKIP'''.split())


class S:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.value = None
        self.used = self.fwd = False
        self.present = True


def names(rng, k):
    """k names that compare in all kinds of ways"""
    res = {}
    stem = ['S', 'sym', 'Zz', '_', '_a', 'q.', 'abc', 'ABCDEFGHIJ', 'label_with_a_long_name.', 'z', 'M']
    while len(res) < k:
        q = rng.random()
        if q < .6:
            n = rng.choice(stem) + ''.join(rng.choice('abkyzABKYZ019_.') for _ in range(rng.randrange(1, 8)))
        elif q < .8 and res:
            b = rng.choice(list(res.values()))
            n = b + rng.choice('a0._Z') if rng.random() < .6 else b[:-1] + rng.choice('aM1_z.')
        else:
            n = rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + \
                ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz_.0123456789') for _ in range(rng.choice([3, 8, 20, 35, 35, 46, 47])))
        u = n.upper()
        # no word of any processor, no constant (0ah is no label anyway), no local name
        if len(n) > 48 or len(n) < 3 or u in res or '.' == n[0] or u in BAD or u.rstrip('ABCDEF0123456789') in ('', 'H') \
                or u[-1] in 'HBQ' or n[-1] == '.':
            continue
        res[u] = n
    return list(res.values())


BAD = set()

# how a symbol is computed from another one (f) and a constant (c)
FORMS = [('f', lambda f, c: f), ('f+c', lambda f, c: f + c), ('c+f', lambda f, c: f + c), ('f-c', lambda f, c: f - c),
         ('c-f', lambda f, c: c - f), ('f*c', lambda f, c: f * c), ('c*f', lambda f, c: f * c), ('f/c', lambda f, c: f // c), ('c/f', lambda f, c: c // f if f else c),
         ('addr(f{3})', lambda f, c: f), ('bit(f{3})', lambda f, c: 3),
         ('f|c', lambda f, c: f | c), ('c|f', lambda f, c: f | c), ('f&c', lambda f, c: f & c), ('c&f', lambda f, c: f & c),
         ('f^c', lambda f, c: f ^ c), ('c^f', lambda f, c: f ^ c), ('f<<3', lambda f, c: f << 3), ('f>>3', lambda f, c: f >> 3),
         ('c<<f', lambda f, c: c << f if f < 32 else 0), ('c>>f', lambda f, c: c >> f if f < 32 else 0), ('-f', lambda f, c: -f),
         ('~f', lambda f, c: ~f), ('LO(f)', lambda f, c: f & 255), ('HI(f)', lambda f, c: f >> 8 & 255),
         ('f-f', lambda f, c: 0), ('1+(c-f)', lambda f, c: 1 + c - f), ('(f)+1', lambda f, c: f + 1)]


def words():
    import enc6502
    import enc6800
    import encz80
    b = set(RESERVED) | {'ADDR', 'BIT', 'AND', 'ON', 'OFF'}
    for c in ('6500', '6502', '65C02'):
        b |= set(enc6502.mnemonics(c))
    for c in ('6800', '6801', '6803'):
        b |= set(enc6800.ops(c))
    b |= set(encz80.MNEMONICS) | {'BC', 'DE', 'HL', 'SP', 'AF', 'IX', 'IY', 'NZ', 'NC', 'PO', 'PE'}
    return {x.upper() for x in b}


class Prog:
    def __init__(self, rng, cpu, n):
        self.rng, self.cpu = rng, cpu
        self.files = {}
        self.lines = []
        self.pc = 0
        self.syms = []
        self.pool = names(rng, 3 * n + 40)
        self.late = []           # (symbol) to be defined later, used already
        self.n = n
        self.nfile = 0
        self.mac = 0

    def spell(self, s):
        r = self.rng
        return r.choice([s.name, s.name, s.name.lower(), s.name.upper()])

    def use(self, s, out, live=True):
        r = self.rng
        t = self.spell(s)
        if s.kind == 'Abs':
            q = r.randrange(4)
            if q == 0:
                out.append(' dl %s' % t)
                k = 4
            elif q == 1:
                out.append(' db lo(%s)' % t)
                k = 1
            elif q == 2:
                out.append(' db 1,hi(%s+1)' % t)
                k = 2
            else:
                if s.value is None:
                    out.append(' dl 1,-%s' % t)
                    k = 8
                else:
                    out += [' if %s > 5' % t, ' endc']
                    k = 0
        elif s.kind == 'Register(s)':
            out.append(' inc %s' % t)
            k = 1
        elif s.kind.startswith('Bit'):
            out.append(' dl %s(%s)' % (r.choice(['addr', 'bit', 'ADDR']), t))
            k = 4
        elif s.kind == 'Mnemonic':
            out.append(' ' + t)
            k = 1
        else:
            out.append(' ' + t)
            k = getattr(s, "size", 0)
        if live:
            self.pc += k
            s.used = True

    def equ(self, s, expr, v, out):
        out.append('%s %s %s' % (self.spell(s), self.rng.choice(['=', 'equ', 'EQU']), expr))
        s.value = v

    def define(self, out, live=True, place='main'):
        """a new symbol, defined by a line of out; live: the line is really assembled"""
        r = self.rng
        kinds = ['label'] * 4 + ['equ'] * 5 + ['redef'] * 2 + ['bit', 'derived', 'self']
        if place == 'main':
            kinds += ['macro', 'macro2']
        if self.cpu:
            kinds += ['alias']
            if REGS[self.cpu]:
                kinds += ['reg', 'retype']
        k = r.choice(kinds)
        if self.late and live and r.random() < .25:
            s = self.late.pop(r.randrange(len(self.late)))
            k = r.choice(['label', 'equ'])
        else:
            s = S(self.pool.pop(), 'Abs')
            if live:
                self.syms.append(s)
        if not live:
            s.present = False
        v = r.choice([0, 1, 0xff, 0x1234, 0xffff, r.randrange(1 << 16)])
        if k == 'label':
            q = r.randrange(3)
            s.value = self.pc
            if q == 0:
                out.append(self.spell(s))
            else:
                out.append('%s db 1' % self.spell(s))
                if live:
                    self.pc += 1
        elif k == 'equ':
            if r.random() < .3:
                self.equ(s, '*', self.pc, out)
            else:
                self.equ(s, str(v), v, out)
        elif k == 'redef':
            for _ in range(r.randrange(2, 4)):
                v = r.randrange(1 << 16)
                self.equ(s, str(v), v, out)
                if live and r.random() < .3:
                    self.use(s, out)
        elif k == 'self':
            self.equ(s, '7', 7, out)
            self.equ(s, self.spell(s) + '+1', 8, out)
            s.used = True
        elif k == 'bit':
            n = r.randrange(0, 9)
            s.kind = 'Bit%d' % n
            s.name = s.name[:45]    # one of 48 characters takes 63 columns, some pages have 62 left
            if any(x is not s and x.name.upper() == s.name.upper() for x in self.syms + [S(n, '') for n in self.pool]):
                s.name = s.name[:44] + '_'
            self.equ(s, '%d{%d}' % (v, n), v, out)
        elif k == 'derived':
            if live and self.late:
                f = r.choice(self.late)
                c = r.choice([1, 2, 7, 8, 255, 0x1234])
                t, s.fn = r.choice(FORMS)
                out.append('%s %s %s' % (self.spell(s), r.choice(['=', 'equ']), ''.join({'f': self.spell(f), 'c': str(c)}.get(x, x) for x in t)))
                s.fwd = True
                s.of = f
                s.arg = c
            else:
                self.equ(s, '3', 3, out)
        elif k == 'reg':
            s.kind = 'Register(s)'
            out.append('%s = %s' % (self.spell(s), r.choice(REGS[self.cpu])))
        elif k == 'retype':
            s.kind = 'Register(s)'
            out.append('%s = 5' % self.spell(s))
            out.append('%s = %s' % (self.spell(s), r.choice(REGS[self.cpu])))
        elif k == 'alias':
            s.kind = 'Mnemonic'
            s.nop = r.random() < .6
            out.append('%s = %s' % (self.spell(s), NOP[self.cpu][0] if s.nop else r.choice(OTHERS[self.cpu])))
        else:
            s.kind = 'Macro'
            if k == 'macro2':
                # first a number, then a macro
                self.equ(s, '7', 7, out)
            for _ in range(1):
                s.size = r.randrange(1, 4)
                out.append('%s macro' % self.spell(s))
                for i in range(s.size):
                    out.append(' db %d' % i)
                if r.random() < .3:
                    out += ['.loc', ' db lo(.loc)']
                    s.size += 1
                if r.random() < .3:
                    # not reached: no symbol
                    out += [' exitm', self.pool.pop() + ' db 5', ' endm']
                else:
                    out.append(' endm')
        if live and s.kind != 'Mnemonic' or s.kind == 'Mnemonic' and s.nop:
            if live and r.random() < .45 and not (s.kind == 'Abs' and s.value is None):
                self.users.append(s)

    def macro_def(self, out):
        """symbols defined inside an expansion, which happens once"""
        r = self.rng
        n = 'mac__%d' % self.mac
        self.mac += 1
        body = []
        s = S(n, 'Macro')
        s.used = True
        self.syms.append(s)
        keep = self.users
        self.users = []
        # the call comes right after the definition
        for _ in range(r.randrange(1, 4)):
            if r.random() < .3:
                # the name is an operand of the call
                d = S(self.pool.pop(), 'Abs')
                self.syms.append(d)
                body.append('\\1 = %d' % 77)
                d.value = 77
                self.args.append(d.name)
                break
            self.define(body, True, 'macro')
        out.append('%s macro' % n)
        out += body
        out += [' endm', ' %s %s' % (n, ','.join(self.args))]
        self.args = []
        self.users += keep

    def build(self):
        r = self.rng
        self.users = []
        self.args = []
        out = []
        if r.random() < .6:
            # forward uses need the symbol's name only
            self.forwards = r.randrange(0, 6)
        else:
            self.forwards = 0
        if self.cpu and r.random() < .7:
            out.append(' cpu %s' % self.cpu)
            setcpu = True
        else:
            setcpu = not self.cpu
        a = r.choice([0, 0x200, 0x8000, 0xf000])
        pre = r.randrange(0, 5) if self.cpu else 0
        for i in range(pre):
            # before the processor is known
            s = S(self.pool.pop(), 'Abs')
            self.syms.append(s)
            v = r.randrange(1 << 16)
            self.equ(s, str(v), v, out)
        if not setcpu:
            out.append(' cpu %s' % self.cpu)
        out.append('* = %d' % a)
        self.pc = a
        for i in range(self.n):
            q = r.random()
            if self.forwards and q < .2:
                self.forwards -= 1
                s = S(self.pool.pop(), 'Abs')
                s.fwd = True
                self.syms.append(s)
                self.use(s, out)
                self.late.append(s)
            elif q < .30:
                sub = []
                taken = r.random() < .5
                for _ in range(r.randrange(1, 4)):
                    self.define(sub, taken, 'if')
                if not taken and self.syms and r.random() < .5:
                    # a use that never happens
                    self.use(r.choice(self.syms), sub, live=False)
                if r.random() < .5:
                    out += [' if %d' % taken] + sub + [' endc']
                else:
                    out += [' if %d' % (not taken), ' else'] + sub + [' endc']
            elif q < .36:
                sub = []
                for _ in range(r.randrange(1, 4)):
                    self.define(sub, True, 'inc')
                n = 'inc%d.asm' % self.nfile
                self.nfile += 1
                self.files[n] = '\n'.join(sub) + '\n'
                out.append(' include %s' % n)
            elif q < .43:
                self.macro_def(out)
            elif q < .48:
                # never called: what it would define does not exist
                m = S(self.pool.pop(), 'Macro')
                self.syms.append(m)
                out += ['%s macro' % m.name, '%s = 5' % self.pool.pop(), ' endm']
            elif q < .53:
                out += [' %s' % r.choice(['code', 'dummy']), '.l%d db 0' % i, ' db lo(.l%d)' % i]
                self.pc += 2
                out.append(' code')
            else:
                self.define(out)
            while self.users and r.random() < .6:
                self.use(self.users.pop(r.randrange(len(self.users))), out)
        for s in self.late:
            s.value = r.randrange(1 << 16)
            out.append('%s = %d' % (self.spell(s), s.value))
        for s in self.users:
            if r.random() < .5:
                self.use(s, out)
        # computed from forward references
        for s in self.syms:
            if getattr(s, 'of', None):
                s.of.used = True
                s.value = s.fn(s.of.value, s.arg) & 0xffffffff
        return out

    def table(self):
        mask = 0xffff if self.cpu else 0xffffffff
        res = []
        for s in self.syms:
            v = s.value & mask if s.kind == 'Abs' or s.kind.startswith('Bit') else None
            res.append(('?' if not s.used else '^' if s.fwd else ' ', v, s.kind, s.name.upper()))
        return sorted(res, key=lambda x: x[3])


def check(ctx, r, want):
    got, junk = listing.symtab(r.o)
    if junk:
        ctx.violation('junk', 'unexpected line in the symbol table: %r' % junk[0], r)
        return
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.violation('table', 'entry %d of the symbol table: expected %s, found %s (%d entries expected, %d found); missing %s, '
                      'unexpected %s' % (i, want[i:i + 1], got[i:i + 1], len(want), len(got),
                                         [x for x in want if x not in got][:4], [x for x in got if x not in want][:4]), r)
        return
    ctx.add('entries', len(got))
    for m, v, k, n in got:
        ctx.seen('mark_and_kind', (m, k))


def page(rng):
    if rng.random() < .3:
        return ''
    return ' page %d,%d\n' % (rng.choice([0, 10, 11, 15, 30, 66, 100, 200]),
                              rng.choice([62, 63, 76, 100, 121, 122, 123, 124, 132, 183, 184, 244, 255, 500, 999]))


def options(rng):
    return rng.choice([(), ('-x',), ('-l', '-x'), ('-s',), ('-x', '-s'), ('-lxs',)])


def faulty(ctx, k):
    """-x prints the table although there are errors, which define nothing"""
    rng = ctx.check.rng('f', k)
    p = Prog(rng, rng.choice(['Z80', 'Z80', '6502', '6801', None]), rng.choice([0, 4, 10, 30, 60]))
    out = p.build()
    for _ in range(rng.choice([1, 1, 2, 3, 10, 100])):
        out.insert(rng.randrange(len(out) + 1), rng.choice([' frob', ' nosuch 5', ' db', ' fail told', ' ds -1', ' list maybe', ' db 5 5', ' db "a']))
    files = dict(p.files)
    files['t.asm'] = page(rng) + '\n'.join(out + [' frob']) + '\n'
    ctx.add('cases')
    ctx.add('with_errors')
    opts = rng.choice([('-x',), ('-l', '-x'), ('-lx',), ('-x', '-s'), ('-sxl',)])
    r = ctx.run(files, opts, obj=rng.random() < .5)
    if r.kind != 'exit' or r.code or r.o.ok() or r.o.fatal:
        ctx.violation('faulty', 'a faulty program: %s %s' % (r.describe(), r.o.fatal), r)
        return
    ctx.seen('nontrivial', files['t.asm'])
    check(ctx, r, p.table())


def directed(ctx, k):
    rng = ctx.check.rng('d', k)
    p = Prog(rng, rng.choice(['Z80', 'Z80', '6502', '6801', None]), rng.choice([4, 10, 30, 60]))
    out = p.build()
    files = dict(p.files)
    files['t.asm'] = page(rng) + '\n'.join(out) + '\n'
    ctx.add('cases')
    r = ctx.run(files, options(rng), obj=rng.random() < .5)
    if r.kind != 'exit' or r.code or not r.o.ok():
        ctx.violation('refused', 'a correct program was refused: %s %s' % (r.describe(), r.o.errors[:3] or r.o.fatal), r)
        return
    ctx.seen('nontrivial', files['t.asm'])
    check(ctx, r, p.table())


def general(ctx, k):
    rng = ctx.check.rng('g', k)
    p = gen.program(rng, n=rng.choice([5, 30, 100, 250]), far=k % 4 == 0, cpu=None if k % 4 == 0 else '?', warns=.02,
                    present=rng.choice([0, .05]))
    text = page(rng) + p.text()
    ctx.add('cases')
    r = ctx.run(text, options(rng), obj=rng.random() < .5)
    if r.kind != 'exit' or r.code or not r.o.ok():
        ctx.violation('refused', 'a correct program was refused: %s %s' % (r.describe(), r.o.errors[:3] or r.o.fatal), r)
        return
    ctx.seen('nontrivial', text)
    mask = 0xffff if p.cpu else 0xffffffff
    check(ctx, r, [(m, None if v is None else v & mask, kd, n) for m, v, kd, n in p.table()])


def many(ctx, k):
    """sizes of the table: 0 to 1500 symbols, in the order of every kind of tree"""
    rng = ctx.check.rng('m', k)
    n = rng.choice([0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 300, 1500]) if k % 2 else k
    ns = ['s%04d' % i for i in range(n)]
    q = rng.randrange(4)
    if q == 1:
        ns.reverse()
    elif q == 2:
        rng.shuffle(ns)
    elif q == 3:
        ns = ns[::2] + ns[1::2][::-1]
    vals = {x: rng.randrange(1 << 16) for x in ns}
    used = {x for x in ns if rng.random() < .5}
    lines = ['%s = %d' % (x, vals[x]) for x in ns]
    uses = [' dw %s' % x for x in ns if x in used]
    rng.shuffle(uses)
    fwd = rng.random() < .3
    lines = [' cpu 6502', '* = 0'] + (uses + lines if fwd else lines + uses)
    text = page(rng) + '\n'.join(lines) + '\n'
    ctx.add('cases')
    r = ctx.run(text, options(rng) if n else ('-x',), obj=False)
    if not r.o.ok():
        ctx.violation('refused', 'a correct program was refused: %s' % (r.o.errors[:3] or r.o.fatal), r)
        return
    ctx.seen('sizes', n)
    check(ctx, r, [('?' if x not in used else '^' if fwd else ' ', vals[x], 'Abs', x.upper()) for x in sorted(ns)])


def forms(ctx, k):
    """every form of FORMS, of a symbol that is known only further down"""
    rng = ctx.check.rng('forms', k)
    f, c = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 2, 7, 8, 255, 0x1234])
    want = [('^', f, 'Abs', 'LAT')]
    lines = [' cpu ' + rng.choice(['6502', '6800', 'Z80']), '* = 0', ' dw lat']
    for i, (t, fn) in enumerate(FORMS):
        lines += ['d%02d = %s' % (i, ''.join({'f': 'lat', 'c': str(c)}.get(x, x) for x in t)), ' dw lo(d%02d)' % i]
        want.append(('^', fn(f, c) & 0xffff, 'Abs', 'D%02d' % i))
    ctx.add('cases')
    r = ctx.run('\n'.join(lines + ['lat = %d' % f]) + '\n', ('-x',), obj=False)
    if not r.o.ok():
        ctx.violation('refused', 'a correct program was refused: %s' % (r.o.errors[:3] or r.o.fatal), r)
        return
    check(ctx, r, sorted(want, key=lambda x: x[3]))


def run():
    BAD.update(words())
    c = Check('C19')
    c.parallel(directed, range(c.pick(18000, 60000)))
    c.parallel(faulty, range(c.pick(4500, 15000)))
    c.parallel(general, range(c.pick(4500, 12000)))
    c.parallel(forms, range(c.pick(60, 300)))
    c.parallel(many, range(c.pick(420, 1000)))
    c.finish('a program whose symbols, their marks, kinds and final values are known; counted by its text', need=1000)


main(run)
