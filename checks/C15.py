#!/usr/bin/env python3
"""C15: a relative branch reaches its target exactly or is refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import listing  # noqa: E402
from numtext import number  # noqa: E402
import random  # noqa: E402


def branches(cpu):
    g = gen.Gen(random.Random(0), cpu=cpu)
    if cpu == 'Z80':
        return [(op, pre, c) for (op, pre), c in gen.Gen.BRZ80.items()]
    return [(op.lower(), '', c) for op, c in sorted(g.rels().items())]


class Prog:
    """lines of (label, text, bytes or None when it must be refused, address)"""

    def __init__(self, cpu, org):
        self.cpu, self.pc = cpu, org
        self.head = [' page 0,250', ' cpu %s' % cpu]
        self.lines = [('', '* = $%X' % org, b'', org)]
        self.tail = []

    def add(self, text, data, label='', size=None):
        self.lines.append((label, text, data, self.pc))
        self.pc += len(data) if data is not None else size

    def nested(self, ctx, tag, way):
        """the same lines in a file that is included, or in a macro"""
        body = [('%s %s' % (l, t)) for l, t, _, _ in self.lines[1:]]
        org = self.lines[0][1]
        files = {'t.asm': '\n'.join(self.head + [org, ' ilist on', ' include f.asm']) + '\n', 'f.asm': '\n'.join(body) + '\n'}
        if way == 'mac':
            files = {'t.asm': '\n'.join(self.head + ['mm macro'] + body + [' endm', org, ' mlist on', ' mm']) + '\n'}
        elif way == 'both':
            files['t.asm'] = '\n'.join(self.head + ['mm macro', ' include f.asm', ' endm', org, ' ilist on', ' mlist on', ' mm']) + '\n'
        r = ctx.run(files, ('-s',))
        ctx.add('cases', sum(1 for x in self.lines if x[2] is None or (len(x[2]) == 2)))
        ctx.add('nested')
        if r.kind != 'exit' or r.code != 0:
            ctx.violation(tag + ':end', r.describe(), r)
            return
        got, diag, pend, on, armed = [], False, None, False, False
        for row in listing.rows(r.o):
            if row.kind == 'diag':
                diag = True
            if row.data:
                pend = (pend[0], pend[1] + row.data) if pend else (row.addr, row.data)
            if row.kind == 'line':
                if on and len(got) < len(body):
                    got.append((diag, pend))
                armed = armed or row.text == org
                on = on or armed and row.text == (' mm' if way == 'mac' else ' include f.asm')
                diag, pend = False, None
        if r.o.nerr != sum(1 for x in self.lines if x[2] is None) or len(got) != len(body):
            ctx.violation(tag + ':count', '%s errors, %d lines listed of %d' % (r.o.nerr, len(got), len(body)), r)
            return
        for (l, t, d, a), (diag, pend) in zip(self.lines[1:], got):
            if diag != (d is None):
                ctx.violation(tag + ':verdict', '%s: %r at %X is %s' % (self.cpu, t, a, 'refused' if diag else 'assembled'), r)
                return
            if d and (pend is None or len(d) <= 20 and pend != (a & 0xffff, d)):
                ctx.violation(tag + ':after', '%s: line %r is listed as %s, expected %X: %s' % (self.cpu, t, pend, a, d.hex()), r)
                return

    def judge(self, ctx, tag):
        text = '\n'.join(self.head + [('%s %s' % (l, t)) if t[:1] != '*' else t for l, t, _, _ in self.lines] + self.tail) + '\n'
        first = len(self.head) + 1
        bad = {first + i for i, x in enumerate(self.lines) if x[2] is None}
        opts = ('-s',) if bad else ('-l', '-s')
        r = ctx.run(text, opts)
        ctx.add('cases', sum(1 for x in self.lines if x[2] is None or (len(x[2]) == 2)))
        if r.kind != 'exit' or r.code != 0:
            ctx.violation(tag + ':end', r.describe(), r)
            return False
        if not bad:
            ob = judge.run_ok(ctx, r, tag)
            if ob is None:
                return False
            want = [(a + i, b) for _, _, d, a in self.lines for i, b in enumerate(d)]
            if ob.stream() != want:
                ctx.violation(tag + ':bytes', judge.hexs(None, ob.stream(), want), r)
                return False
            return True
        errs = r.o.errlines()
        if sorted(errs) != sorted(bad):
            ex = sorted(set(errs) - bad)[:3]
            mi = sorted(bad - set(errs))[:3]
            ctx.violation(tag + ':verdict', '%s: refused although in reach: %s, assembled although out of reach: %s' % (
                self.cpu, [self.lines[n - first] for n in ex if 0 <= n - first < len(self.lines)] or ex,
                [self.lines[n - first] for n in mi] or sorted(errs)[:3]), r)
            return False
        rows = {}
        pend = None
        for row in listing.rows(r.o):
            if row.data:
                if pend is None:
                    pend = [row.addr, b'']
                pend[1] += row.data
            if row.kind == 'line':
                if row.num is not None and pend:
                    rows[row.num] = tuple(pend)
                pend = None
        for i, (l, t, d, a) in enumerate(self.lines):
            if d and (first + i) not in rows or d and len(d) <= 20 and rows[first + i] != (a & 0xffff, d):
                ctx.violation(tag + ':after', '%s: line %r is listed as %s, expected %X: %s' % (
                    self.cpu, t, rows.get(first + i), a, d.hex()), r)
                return False
        return True


def text(rng, op, pre, e):
    return '%s%s%s%s' % (rng.choice([op, op.upper()]), rng.choice([' ', '\t', '  ']), pre.replace(',', rng.choice([',', ', ', ' ,'])), e)


def disp(d):
    return d & 0xff


# every branch, every distance, every way to name the target
def distances(ctx, item):
    cpu, (op, pre, code), way, org = item
    rng = ctx.check.rng(item)
    for only in (True, False):
        p = Prog(cpu, org)
        ds = list(range(-140, 141)) + [-32768, 32767, -255, -256, -257, 255, 256, 257, 511, 512, 65535 - 128, 4096]
        # far targets whose distance looks small in 16 or 24 bits
        ds += [m * s + rng.randrange(-128, 128) for m in (1 << 16, 1 << 17, 1 << 24, 1 << 28, 0x7f000000) for s in (1, -1)]
        if only:
            ds = [d for d in ds if -128 <= d <= 127]
        rng.shuffle(ds)
        ds = [d for d in ds if 0 <= p.pc + 2 * len(ds) + d]
        for k, d in enumerate(ds):
            t = p.pc + 2 + d
            if t < 0 or t > 0x7fffffff:
                continue
            if way == 'number':
                e = number(t, rng)
            elif way == 'star':
                e = '*%+d' % (d + 2) if d != -2 or rng.random() < .5 else '*'
            elif way == 'back':
                e = 't%d' % k
                p.head.append('t%d = %s' % (k, number(t, rng)))
            else:
                e = 'f%d' % k
                p.tail.append('f%d = %s' % (k, number(t, rng)))
            ok = -128 <= d <= 127
            p.add(text(rng, op, pre, e), bytes([code, disp(d)]) if ok else None, size=2)
            ctx.seen('nontrivial', (cpu, op, pre, way, d))
        # the lines after know where they are
        p.add('db %d' % 7, b'\7', label='after')
        p.add('dl after', (p.pc - 1).to_bytes(4, 'big' if cpu in gen.BIG else 'little'))
        p.judge(ctx, 'distance')


# labels with code between them
def layouts(ctx, item):
    rng = ctx.check.rng('lay', item)
    cpu = rng.choice(gen.CPUS)
    br = branches(cpu)
    n = rng.choice([4, 10, 30])
    near = rng.random() < .5
    plan = []
    pc = org = rng.choice([0, 0x10, 0x80, 0x200, 0x7ff0, 0x8000, 0xff00, 0x12300, rng.randrange(0x10000)])
    labs = []
    for i in range(n):
        q = rng.random()
        lab = ''
        if q < .5:
            lab = rng.choice(['l%d', 'Lab_%d', '.l%d']) % i
            labs.append((lab, pc))
        if rng.random() < .55:
            plan.append((lab, 'br', pc))
            pc += 2
        else:
            k = rng.choice([0, 1, 2, 5, 20, 60, 100, 121, 122, 123, 124, 125, 126, 127, 128, 129]) if not near else rng.randrange(0, 14)
            plan.append((lab, k, pc))
            pc += k
    if not labs:
        return
    p = Prog(cpu, org)
    for lab, what, at in plan:
        if what == 'br':
            op, pre, code = rng.choice(br)
            l, v = rng.choice(labs)
            off = rng.choice([0, 0, 0, 1, -1, 2, 5])
            if near and rng.random() < .1:
                # aim at the very edge of the reach
                off = at + 2 + rng.choice([-129, -128, 127, 128]) - v
            d = v + off - (at + 2)
            if v + off < 0:
                off, d = 0, v - (at + 2)
            e = l if not off else '%s%+d' % (l, off)
            ok = -128 <= d <= 127
            ctx.seen('nontrivial', (cpu, op, d, v > at))
            ctx.add('refused' if not ok else 'reached')
            p.add(text(rng, op, pre, rng.choice([e, e.upper()])), bytes([code, disp(d)]) if ok else None, lab, 2)
        elif what == 0:
            p.add('', b'', lab)
        else:
            v = rng.randrange(256)
            p.add('ds %d,%d' % (what, v), bytes([v]) * what, lab)
    p.add('db 1', b'\1', 'last')
    l, v = labs[-1]
    p.add('dl last,%s' % l, b''.join(x.to_bytes(4, 'big' if cpu in gen.BIG else 'little') for x in (p.pc - 1, v)))
    if p.judge(ctx, 'layout') and item % 3 == 0:
        p.nested(ctx, 'nested', rng.choice(['inc', 'mac', 'both']))


def fill(ctx, item):
    """random programs full of branches"""
    rng = ctx.check.rng('gen', item)
    p = gen.program(rng, cpu=rng.choice(gen.CPUS), n=rng.choice([20, 60, 120]), ds_max=60)
    r = ctx.run(p.text(), ('-l',))
    ctx.add('cases')
    judge.code(ctx, r, p, 'prog')


def go():
    c = Check('C15')
    orgs = c.pick([0x200, 0x8000], [0x90, 0x200, 0x7fff, 0x8000, 0xff80, 0xfff8, 0x10000, 0x123456])
    c.parallel(distances, [(cpu, b, way, org) for cpu in gen.CPUS for b in branches(cpu) for way in ('number', 'star', 'back', 'fwd') for org in orgs])
    q = c.pick(2, 15)
    c.parallel(layouts, range(8000 * q))
    c.parallel(fill, range(1500 * q))
    c.finish('every branch of every processor over all distances -140..140 with the target as number, *+n, symbol defined before or after; '
             'random layouts of branches, labels and gaps with reached and refused targets; non-trivial: distinct (branch, way, distance)',
             need=50000)


main(go)
