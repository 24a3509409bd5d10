#!/usr/bin/env python3
"""C07: every use of a symbol yields the one value its definition gives it.

Random programs of definitions and uses whose truth is computed while they are
written.  Monitors: the object bytes of correct programs; the exact set of erroneous
lines, and the listed bytes of all others, when undefined uses, second definitions and
definitions of reserved words are mixed in; and for programs whose two passes may
disagree, that a reported success is consistent with itself.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import enc6502  # noqa: E402
import enc6800  # noqa: E402
import encz80  # noqa: E402
import foldcheck  # noqa: E402
import judge  # noqa: E402
import listing  # noqa: E402
import objfile  # noqa: E402
from numtext import number  # noqa: E402

PSEUDO = ('EQU ASC ALIGN CLIST CODE CPU DB DDB DL DW DUMMY DS ELSE ENDC ENDM EXITM FAIL IF ILIST INCLUDE LIST MACRO MLIST '
          'NAM PAGE OUTPUT SKIP').split()
REGS = {'6502': 'A X Y'.split(), '6500': 'A X Y'.split(), '65C02': 'A X Y'.split(),
        'Z80': 'A B C D E H L AF BC DE HL IX IY SP I R'.split()}


def mnemonics(cpu):
    if cpu == 'Z80':
        return list(encz80.MNEMONICS) + ['JR', 'DJNZ']
    if cpu in gen.BIG:
        return list(enc6800.ops(cpu))
    return enc6502.mnemonics(cpu)


def reserved(cpu):
    return set(PSEUDO) | set(mnemonics(cpu)) | set(REGS.get(cpu, ())) | {'HI', 'LO', 'S', 'P', 'F', 'NZ', 'NC', 'PO', 'PE', 'M', 'Z'} | \
        set(REGS['Z80']) | set(REGS['6502'])


class Names:
    """names that are easily taken for one another, all different"""

    def __init__(self, rng, cpu):
        self.rng, self.cpu = rng, cpu
        self.taken = set(reserved(cpu))
        self.all = []
        self.style = rng.choice(['mixed', 'mixed', 'mixed', 'sorted', 'reverse', 'prefix', 'long', 'mnemonic'])
        self.n = 0

    def make(self):
        r = self.rng
        self.n += 1
        st = self.style if self.style != 'mixed' else r.choice(['w', 'prefix', 'long', 'mnemonic', 'case', 'num', 'us'])
        if st == 'sorted':
            return 'n%06d' % self.n
        if st == 'reverse':
            return 'n%06d' % (999999 - self.n)
        if st == 'prefix' and self.all:
            b = r.choice(self.all)
            return r.choice([b + r.choice('abz09_.'), b[:-1], b + b])[:36]
        if st == 'long':
            b = ''.join(r.choice('abAB_.19') for _ in range(35))
            if self.all and r.random() < .6:
                b = max(self.all, key=len).ljust(36, 'x')[:35]
            return r.choice('xY_') + (b if r.random() < .3 else b[:-1] + r.choice('abcdefghijklmnopqrstuvwxyz0123456789_.'))
        if st == 'mnemonic':
            m = r.choice(mnemonics(self.cpu) + PSEUDO + ['HI', 'LO', 'A', 'X'])
            return r.choice(['%s.%s' % (m, r.choice(['b', 'w', 'x', '1', 'l'])), m + 'x', 'x' + m, m + '1', m[:-1] or 'q', '_' + m,
                             m + '.', m + '_'])
        if st == 'case' and self.all:
            return r.choice(self.all).swapcase() + r.choice('0123456789')
        if st == 'num':
            return r.choice(['b%d', 'ah', 'fh', 'B1%dh', 'q%dq', 'h%dh', 'a0%db', 'x%d', 'b0%d']).replace('%d', str(self.n))
        if st == 'us':
            return '_' * r.randrange(1, 9) + r.choice(['', 'a', '1', '.'])
        return r.choice(gen.WORDS) + str(r.randrange(1000))

    def new(self):
        while True:
            n = self.make()
            if not n or n[0] in '.0123456789' or len(n) > 36 or n.upper() in self.taken:
                self.n += 1
                if self.style not in ('sorted', 'reverse'):
                    if self.rng.random() < .2:
                        n = 'z%d' % self.rng.randrange(10 ** 6)
                        if n.upper() in self.taken:
                            continue
                    else:
                        continue
                else:
                    continue
            self.taken.add(n.upper())
            self.all.append(n)
            return n


def cased(rng, n):
    return rng.choice([n, n, n.lower(), n.upper(), n.swapcase()])


class Work:
    def __init__(self, rng, n, faults=0.0, cpu=None):
        self.rng = rng
        self.cpu = cpu or rng.choice(gen.CPUS)
        self.big = self.cpu in gen.BIG
        self.names = Names(rng, self.cpu)
        self.lines = []           # [text, fn() -> bytes or None, address, error]
        self.value = {}           # upper name -> final value (labels and constants)
        self.n, self.faults = n, faults
        self.done = []            # defined so far, by any means
        self.plan = []            # labels to come
        self.fplan = []           # constants to come that are used before
        self.fixed = []           # labels so far: never to be defined again
        self.cur = {}             # redefinable -> value now
        self.code = True
        self.uses = 0
        self.seg = False

    def add(self, text, data=None, size=0, err=False):
        self.lines.append([text, data, self.pc, err, self.code])
        self.pc += size

    def pick(self):
        """(name, thunk) of something usable here"""
        r = self.rng
        q = r.random()
        self.uses += 1
        if q < .4 and self.done:
            n = r.choice(self.done[-8:] if r.random() < .5 else self.done)
        elif q < .7 and self.plan:
            n = r.choice(self.plan[:8] if r.random() < .5 else self.plan)
        elif q < .85 and self.fplan:
            n = r.choice(self.fplan)
        elif self.cur:
            n = r.choice(list(self.cur))
            v = self.cur[n]
            return cased(r, n), lambda v=v: v
        else:
            v = r.randrange(1 << 16)
            return number(v, r), lambda v=v: v
        return cased(r, n), lambda n=n: self.value[n.upper()]

    def term(self, fwd=True):
        r = self.rng
        t, f = self.pick()
        q = r.random()
        if q < .6:
            return t, f
        if q < .8:
            u, g = self.pick()
            if r.random() < .5:
                return '%s+%s' % (t, u), lambda: f() + g()
            return '%s-%s' % (t, u), lambda: f() - g()
        k = r.randrange(300)
        return '%s+%s' % (t, number(k, r)), lambda: f() + k

    def use(self, label=''):
        r = self.rng
        t, f = self.term()
        q = r.random()
        e = 'big' if self.big else 'little'
        if q < .7:
            return label + ' dl ' + t, (lambda: (f() & 0xffffffff).to_bytes(4, e)), 4
        if q < .85:
            return label + ' dw (%s)&$ffff' % t, (lambda: (f() & 0xffff).to_bytes(2, e)), 2
        if q < .93:
            return label + ' db lo(%s)' % t, (lambda: bytes([f() & 255])), 1
        op, code = {'Z80': ('jp', 0xc3)}.get(self.cpu, ('jmp', 0x7e if self.big else 0x4c))
        # a constant below 256 is a zero page operand: only in the 6800's table is there no such jump
        return label + ' %s (%s)|$8000' % (op, t) if self.cpu != 'Z80' else label + ' jp $8000|(%s)' % t, \
            (lambda: bytes([code]) + ((f() | 0x8000) & 0xffff).to_bytes(2, e)), 3

    def const(self):
        """text and value of an expression of things defined above (or plain)"""
        r = self.rng
        if self.done and r.random() < .5:
            n = r.choice(self.done)
            if n.upper() in self.value:
                k = r.randrange(10)
                return '%s+%d' % (cased(r, n), k), self.value[n.upper()] + k
        if r.random() < .2:
            return '*', self.pc
        v = r.choice([0, 1, 255, 256, 65535, 65536, 0xffffffff, r.randrange(1 << 32), r.randrange(1 << 16)])
        return number(v, r), v

    def fault(self):
        r = self.rng
        q = r.random()
        un = self.names.new()
        if q < .2:
            # undefined, where it makes no room
            t = r.choice([' dl %s', ' dw %s', ' db %s', ' db lo(%s)', ' dl 2+%s*3', ' dl ~%s', ' if %s\n endc',
                          '* = %s', '%s2 = %s' if 0 else ' ds %s'])
            if 'if' in t:
                t = ' dl %s'
            self.add(t % cased(r, un), err=True)
            a = r.choice([0x200, 0x1000, r.randrange(1 << 16)])
            self.pc = a
            self.add('* = %s' % number(a, r))
            return
        if q < .3:
            self.add('%s = %s' % (self.names.new(), un), err=True)     # not defined by this
            return
        if q < .65 and self.fixed:
            n = r.choice(self.fixed)
            self.add(r.choice(['%s = 5', '%s equ *', '%s', '%s dl 5', '%s = %s', '%s equ %s+1']).replace('%s', cased(r, n)), err=True)
            return
        if q < .72 and self.cur:
            n = r.choice(list(self.cur))
            self.add(r.choice(['%s', '%s dl 5', '%s ds 3', '%s db 1,2,3']).replace('%s', cased(r, n)), err=True)
            return
        m = r.choice(PSEUDO + mnemonics(self.cpu) + REGS.get(self.cpu, []) * 4)
        t = r.choice(['%s = 5', '%s equ 5', '%s dl 5'])
        if m in PSEUDO + mnemonics(self.cpu):
            t = '%s = 5'         # elsewhere it is an operation
        self.add(t % cased(r, m), err=True)

    def build(self):
        r = self.rng
        self.pc = 0
        self.add(' cpu %s' % self.cpu)
        a = r.choice([0, 0x200, 0x8000, 0x10, r.randrange(1 << 16)])
        self.pc = a
        self.add('* = %s' % number(a, r))
        plan = [self.names.new() if r.random() < .6 else None for _ in range(self.n)]
        self.plan = [x for x in plan if x]
        self.fplan = [self.names.new() for _ in range(r.randrange(0, 5))]
        fdefs = list(self.fplan)
        for lab in plan:
            while r.random() < .4:
                q = r.random()
                if q < .35:
                    t, v = self.const()
                    n = self.names.new()
                    self.add(r.choice(['%s = %s', '%s equ %s', '%s=%s', ' %s EQU %s']) % (n, t))
                    self.value[n.upper()] = v
                    # never used before: may be redefined, but here it is not
                    self.done.append(n) if r.random() < .5 else self.cur.__setitem__(n, v)
                    if n in self.cur:
                        del self.value[n.upper()]
                elif q < .6 and self.cur:
                    n = r.choice(list(self.cur))
                    if r.random() < .5:
                        k = r.randrange(1, 20)
                        self.add('%s = %s+%d' % (cased(r, n), cased(r, n), k))
                        self.cur[n] += k
                    else:
                        t, v = self.const()
                        self.add('%s equ %s' % (cased(r, n), t))
                        self.cur[n] = v
                elif q < .7 and fdefs and self.lines:
                    self.fdef(fdefs)
                elif q < .76:
                    self.code = not self.code
                    self.add(' code' if self.code else ' dummy')
                elif q < .82:
                    a = r.choice([self.pc + r.randrange(20), r.randrange(1 << 16), max(0, self.pc - 3)])
                    self.pc = a
                    self.add('* = %s' % number(a, r))
                else:
                    t, f, k = self.use()
                    self.add(t, f, k)
            if r.random() < self.faults:
                self.fault()
            if lab is None:
                t, f, k = self.use()
                self.add(t, f, k)
                continue
            self.value[lab.upper()] = self.pc
            self.plan.remove(lab)
            self.fixed.append(lab)
            q = r.random()
            here = cased(r, lab)
            if q < .4:
                self.done.append(lab)
                t, f, k = self.use(here)
                self.add(t, f, k)
            elif q < .6:
                k = r.choice([0, 1, 3, 16])
                self.add('%s ds %d' % (here, k), lambda k=k: bytes(k), k)
                self.done.append(lab)
            elif q < .8:
                self.add(here + r.choice(['', ' ; x', '   ']))
                self.done.append(lab)
            else:
                self.add('%s db 7' % here, lambda: b'\7', 1)
                self.done.append(lab)
        while fdefs:
            self.fdef(fdefs)
        return self

    def fdef(self, fdefs):
        r = self.rng
        n = fdefs.pop()
        self.fplan.remove(n)
        v = r.choice([0, 1, 255, 256, 65535, 0xffffffff, r.randrange(1 << 32)])
        self.value[n.upper()] = v
        self.done.append(n)
        self.add('%s = %s' % (cased(r, n), number(v, r)))

    def text(self):
        return ''.join(l[0] + '\n' for l in self.lines)

    def stream(self):
        return [(a + i & 0xffffffff, b) for t, f, a, e, c in self.lines if f and c and not e for i, b in enumerate(f())]

    def errors(self):
        return [i + 1 for i, l in enumerate(self.lines) if l[3]]


def judge_work(ctx, w, tag):
    if not w.errors():
        r = ctx.run(w.text(), ctx.check.rng(w.text()).choice([('-l',), ()]))
        ob = judge.run_ok(ctx, r, tag)
        if ob is None:
            return False
        if ob.stream() != w.stream():
            ctx.violation(tag + ':bytes', judge.hexs(w, ob.stream(), w.stream()), r)
            return False
        return True
    r = ctx.run(' page 0,250\n' + w.text(), ())
    if r.kind != 'exit' or r.code or r.o.fatal:
        ctx.violation(tag + ':end', 'ended with %s %s' % (r.describe(), r.o.fatal), r)
        return False
    want = [n + 1 for n in w.errors()]
    got = r.o.errlines()
    if got != want:
        miss = [n for n in want if n not in got][:2]
        more = [n for n in got if n not in want][:2]
        n = (miss + more + [0])[0]
        ctx.violation(tag + ':errors', 'line %d: %r: %s' % (n, w.lines[n - 2][0], 'error missing' if miss else
                      'unexpected error: %s' % [m for k, m in r.o.errors if k == n]), r)
        return False
    # what the lines without fault emit is what it would be without the faults
    ls = foldcheck.listed(r.o)
    wl = []
    for t, f, a, e, c in w.lines:
        if f and c and not e:
            d = f()
            if d:
                wl.append((a & 0xffff, d))
    bad = foldcheck.compare(ls, wl)
    if bad:
        ctx.violation(tag + ':listed', bad, r)
        return False
    return True


def one(ctx, k):
    rng = ctx.check.rng('one', k)
    w = Work(rng, rng.choice([2, 5, 15, 40, 90]), rng.choice([0, 0, .05, .15])).build()
    ctx.add('cases')
    ctx.add('uses', w.uses)
    ctx.add('symbols', len(w.names.all))
    ctx.add('faults', len(w.errors()))
    if judge_work(ctx, w, 'prog'):
        ctx.seen('nontrivial', w.text())
    ctx.sample(w.text()[:300])


def many(ctx, k):
    """large symbol tables, orders that make the tree grow in one direction"""
    rng = ctx.check.rng('many', k)
    w = Work(rng, rng.choice([400, 1000, 2500]), rng.choice([0, .01]))
    w.names.style = ['mixed', 'sorted', 'reverse', 'prefix', 'long', 'mnemonic'][k % 6]
    w.build()
    ctx.add('cases')
    ctx.add('uses', w.uses)
    ctx.seen('table_sizes', len(w.names.all))
    if judge_work(ctx, w, 'many'):
        ctx.seen('nontrivial', ('many', k))


def single(ctx, item):
    """each fault alone, in an otherwise correct program: at exactly its line"""
    what, k = item
    rng = ctx.check.rng('single', what, k)
    cpu = rng.choice(gen.CPUS)
    w = Work(rng, rng.choice([3, 10, 20]), 0, cpu).build()
    un = w.names.new()
    r = rng
    lines = [l[0] for l in w.lines]
    end = ['* = $100']
    bad = None
    if what == 'undef':
        ops = [' db %s', ' dw %s', ' dl %s', ' ddb %s', ' ds %s', ' ds 2,%s', ' dl 1,%s,2', ' dl (%s)+1', ' dl ~%s', ' dl hi %s',
               ' dl 1<<%s', ' dl -%s', '* = %s', 'nn9 = %s', 'nn9 equ %s+1', ' if %s', ' if %s=1', ' skip %s', ' page %s,70', ' page 60,%s',
               ' dl 2*%s', ' dl *-%s', ' dl %s*0', ' dl 0&%s']
        mn = {'Z80': [' ld a,%s', ' ld hl,%s', ' ld (%s),a', ' ld a,(ix+%s)', ' jp %s', ' jr %s', ' djnz %s', ' call nz,%s', ' bit %s,a',
                      ' rst %s', ' im %s', ' in a,(%s)', ' ld (iy+1),%s', ' ld sp,(%s)', ' add a,%s', ' jr nz,%s', ' out (%s),a'],
              }.get(cpu) or ([' ldaa #%s', ' ldaa %s', ' ldaa %s,x', ' ldx #%s', ' jmp %s', ' bra %s', ' bsr %s', ' clr %s', ' cpx %s']
                             if cpu in gen.BIG else
                             [' lda #%s', ' lda %s', ' lda %s,x', ' lda (%s,x)', ' lda (%s),y', ' jmp %s', ' jmp (%s)', ' bne %s', ' asl %s'])
        bad = [r.choice(ops + mn) % cased(r, un)]
        lines += bad + (['* = 0'] if 'if' not in bad[0] else [])
        n = len(w.lines) + 1
        only = True
    elif what == 'dup':
        # second definitions, all pairs of kinds
        a, b = r.choice([('%s dl 1', '%s dl 2'), ('%s', '%s'), ('%s', '%s = 1'), ('%s = 1', '%s'), ('%s equ 1', '%s ds 0'),
                         ('%s db 1', '%s equ *'), ('%s db 1', '%s macro\n endm')])
        fwd = r.random() < .3 and 'macro' not in a
        pre = lines[:2] + [' dl %s' % un] * fwd
        at = r.randrange(2, len(lines) + 1)
        dist = [x for x in lines[2:]]
        mid = r.randrange(len(dist) + 1)
        lines = pre + dist[:mid] + (a % cased(r, un)).split('\n') + dist[mid:]
        n = len(lines) + 1
        lines += (b % cased(r, un)).split('\n') + ['* = 5']
        only = 'macro' not in b and 'macro' not in a
        if a == '%s equ 1' or a == '%s = 1':
            only = True
    elif what == 'fdup':
        # a constant that was used before its definition cannot be redefined
        lines = lines[:2] + [' dl %s' % cased(r, un)] + lines[2:] + ['%s = 5' % cased(r, un), ' dl %s' % un]
        n = len(lines) + 1
        lines += [r.choice(['%s = 6', '%s equ 6', '%s dl 1']) % cased(r, un)]
        only = True
    elif what == 'word':
        m = r.choice(PSEUDO + mnemonics(cpu) + REGS.get(cpu, []))
        isop = m in PSEUDO + mnemonics(cpu)
        t = r.choice(['%s = 5', '%s=5'] + ([] if isop else ['%s equ 5', ' %s equ 5', '%s dl 5', '%s db 5', '%s ds 3']))
        n = len(lines) + 1
        lines += [t % cased(r, m)]
        only = True
    elif what == 'star':
        n = len(lines) + 1
        lines += [r.choice(['* db 1', '* ds 3', '* dl *'])]
        lines = '\n'.join(lines).split('\n')
        only = '* macro' not in lines
    elif what == 'malformed':
        n = len(lines) + 1
        lines += [r.choice(['1abc = 5', 'a-b = 5', 'a$ = 5', '9 = 5', "a'b = 1", 'a+b equ 5', '@x = 5', 'a#b db 1', '5x db 5', 'a!b ds 1', 'a:', '2+3', '5a', 'foo-bar', 'a#1', "ab'cd"])]
        only = True
    res = ctx.run('\n'.join(lines) + '\n', ('-l',))
    ctx.add('cases')
    el = res.o.errlines()
    t = lines[n - 1]
    key = '%s:%s' % (what, t.upper().replace(un.upper(), 'u').strip().replace(' ', '_')[:30])
    if res.kind != 'exit' or res.code:
        ctx.violation(key + ':end', '%r: ended with %s %s' % (t, res.describe(), res.o.fatal), res)
    elif not el or el[0] != n or (only and el != [n] and not t.startswith(' if')):
        ctx.violation(key, '%s: line %d %r: errors are reported at lines %s' % (what, n, t, el), res)
    elif res.obj is not None or res.o.ok():
        ctx.violation(key + ':ok', '%r: success in spite of the error' % t, res)
    ctx.seen('nontrivial', (what, key))


def phase(ctx, k):
    """programs whose passes may disagree: an error, or everything fits together"""
    rng = ctx.check.rng('phase', k)
    r = rng
    cpu = r.choice(['6502', '65C02', '6800', 'Z80'])
    e = 'big' if cpu in gen.BIG else 'little'
    out = [' cpu %s' % cpu, '* = $%X' % r.choice([0, 0x80, 0x200, 0xf0])]
    labs = ['l%d' % i for i in range(r.randrange(1, 7))]
    cons = ['k%d' % i for i in range(r.randrange(1, 5))]
    risky = 0
    todo = list(labs)
    kdef = list(cons)
    for _ in range(r.randrange(4, 18)):
        q = r.random()
        if q < .15:
            out.append(' ds %s' % r.choice(cons))
        elif q < .25:
            out.append(' if %s%s\n db 1,2,3\n endc' % (r.choice(cons + labs), r.choice(['', '=0', '>3', '-5'])))
        elif q < .35:
            out.append('* = %s%s' % (r.choice(cons + ['*']), r.choice(['', '+1', '+*'])))
        elif q < .5 and kdef:
            out.append('%s = %s' % (kdef.pop(), r.choice(['5', '0', '300'] + cons + labs + ['*'])))
        elif q < .7:
            op = {'Z80': ' ld a,(%s)', '6800': ' ldaa %s'}.get(cpu, ' lda %s')
            out.append(op % r.choice(labs + cons))
        elif q < .8:
            out.append(' align even')
        elif todo:
            n = todo.pop(0)
            out.append('%s\n db $a5,%d\n dl %s' % (n, labs.index(n), n))
            # the marker a5 <index> stands where the label is
        else:
            out.append(' dl %s' % r.choice(labs + cons))
    for n in todo:
        out.append('%s\n db $a5,%d\n dl %s' % (n, labs.index(n), n))
    for n in kdef:
        out.append('%s = %s' % (n, r.choice(['5', '0', '300'] + labs)))
    # every label and constant once before everything, once after
    head = out[:2] + ['* = $C000'] + [' dl %s' % n for n in labs + cons] + out[1:2]
    tail = ['* = $D000'] + [' dl %s' % n for n in labs + cons]
    body, files = out[2:], {}
    if rng.random() < .4:
        # a stretch of it in a macro, in a file, or in both
        a = rng.randrange(len(body) + 1)
        b = rng.randrange(a, len(body) + 1)
        part = body[a:b]
        if rng.random() < .5:
            files['f.asm'] = ''.join(x + '\n' for x in part)
            part = [' include f.asm']
        if not files or rng.random() < .5:
            part = ['mm macro'] + part + [' endm', ' mm']
        body[a:b] = part
    text = '\n'.join(head + body + tail) + '\n'
    res = ctx.run(dict(files, **{'t.asm': text}), ('-l',))
    ctx.add('cases')
    if res.kind != 'exit' or res.code:
        ctx.violation('phase:end', 'ended with %s' % res.describe(), res)
        return
    if not res.o.ok():
        if not res.o.errors:
            ctx.violation('phase:silent', 'neither success nor an error', res)
        ctx.add('phase_refused')
        return
    ctx.add('phase_accepted')
    ctx.seen('nontrivial', text)
    st = objfile.parse(res.obj).stream()
    k = 4 * len(labs + cons)
    first, last = st[:k], st[-k:]
    for i, n in enumerate(labs + cons):
        a, b = (int.from_bytes(bytes(x for _, x in s[4 * i:4 * i + 4]), e) for s in (first, last))
        if a != b:
            ctx.violation('phase:differ', '%s is %X where it is used before and %X after its definition' % (n, a, b), res)
            return
        if n in labs:
            # the bytes follow the label: its marker is at its address
            d = [st[j:j + 6] for j in range(k, len(st) - k - 5) if st[j][1] == 0xa5 and st[j + 1][1] == labs.index(n)
                 and st[j][0] == b and int.from_bytes(bytes(x for _, x in st[j + 2:j + 6]), e) == b]
            if not d:
                ctx.violation('phase:place', '%s is %X, but its line is elsewhere' % (n, b), res)
                return


NOALIAS = {'', 'cpu', 'equ', '=', 'include', 'nam', 'macro', 'endm', 'exitm'}
ALIASREGS = {'a', 'b', 'c', 'd', 'e', 'h', 'l', 'bc', 'de', 'hl', 'sp', 'ix', 'iy'}


def aliases(ctx, k):
    """symbols that stand for mnemonics, directives and registers, redefined now and then"""
    rng = ctx.check.rng('alias', k)
    p = gen.program(rng, n=rng.choice([10, 40, 80]), cpu='?', low=rng.random() < .3, faults=0, warns=rng.choice([0, .05]), comments=rng.random() < .5)
    names = ['zqa%d' % i for i in range(rng.choice([1, 2, 5, 12]))]
    now = {}
    out = []
    for m in ('db', 'dw'):
        out += ['zqm%s macro' % m, ' %s \\1' % m, ' endm']
    out += ['zqset macro', '\\1 = \\2', ' endm']
    files = {}
    ready = False
    changed = 0

    def alias(word):
        """a name for the word, defined by a line before if there is none now"""
        ns = [n for n in names if now.get(n) == word.upper()]
        if ns and rng.random() < .9:
            n = rng.choice(ns)
        else:
            n = rng.choice(names)
            t = word
            if ns and rng.random() < .5:
                t = rng.choice(ns)      # of another alias
            # EQU would be an operand of the mnemonic that the name stands for
            line = '%s %s %s' % (n, rng.choice(['=', 'equ', 'EQU'] if n not in now else ['=']), t)
            how = rng.random()
            if how < .25:       # by an expansion
                out.append(' zqset %s,%s' % (n, t))
                ctx.add('aliases set by a macro')
            elif how < .35:
                out.extend([' if 1', line, ' endc'])
            elif how < .45:
                out.append(' include a%d' % len(files))
                files['a%d' % len(files)] = line
            else:
                out.append(line)
            now[n] = word.upper()
        return rng.choice([n, n.upper()])
    for x in p.lines:
        op, arg = x.op, x.arg
        if ready and op.isalpha() and op.lower() not in NOALIAS:
            if op.lower() in ('db', 'dw') and rng.random() < .3 and not any(c in arg for c in ',("\'\\;') and not (x.label or arg).startswith('.') and '.' not in arg:
                x.op = alias('zqm' + op)
                changed += 1
                ctx.add('macro_aliases')
            elif rng.random() < .4:
                x.op = alias(op)
                changed += 1
            if x.kind == 'instr' and (p.cpu == 'Z80' and op.lower() not in ('ex', 'jp', 'jr', 'call', 'ret') or arg.lower() == 'a'):
                parts = arg.split(',')
                reserved = {x.op.lower()}
                for i, w in enumerate(parts):
                    q = w.strip()
                    if q.lower() in ALIASREGS and rng.random() < .4:
                        old = dict(now)
                        had = len(out)
                        a = alias(q)
                        if a.lower() in reserved or any(old.get(n) != now.get(n) for n in reserved):
                            # takes the name away that the line needs
                            del out[had:]
                            now.clear()
                            now.update(old)
                            continue
                        reserved.add(a.lower())
                        parts[i] = a
                        changed += 1
                x.arg = ','.join(parts)
            if len(x.text().encode()) > 230:
                x.comment = ''
        out.append(x.text())
        x.op, x.arg = op, arg
        ready = ready or op.lower() == 'cpu'
    text = '\n'.join(out) + '\n'
    files['t.asm'] = text
    r = ctx.run(files, ('-l',))
    ctx.add('cases')
    if judge.code(ctx, r, p, 'alias'):
        ctx.add('aliased', changed)
        if changed:
            ctx.seen('nontrivial', text)


def go():
    c = Check('C07')
    c.parallel(aliases, range(c.pick(3750, 20000)))
    c.parallel(one, range(c.pick(6250, 60000)))
    c.parallel(many, range(c.pick(60, 300)))
    c.parallel(single, [(w, k) for w, n in (('undef', 1500), ('dup', 800), ('fdup', 150), ('word', 800), ('star', 60), ('malformed', 100))
                        for k in range(c.pick(n, n * 20))])
    c.parallel(phase, range(c.pick(10000, 100000)))
    c.finish('random definition/use programs with and without faults, large symbol tables, each fault alone, programs whose '
             'passes may disagree; non-trivial: distinct programs judged', need=1000)


main(go)
