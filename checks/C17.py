#!/usr/bin/env python3
"""C17: the listing shows the source and the code that was really generated.

Programs with known bytes are folded into conditionals, macros and include files, with
LIST, MLIST, CLIST and ILIST switched here and there.  A simulator written from the
manual says which rows the listing must have, in order: line number or M/C mark, text,
address and bytes, value of an assignment.  Monitor: the rows of the real listing, one by
one; the same bytes are in the object file.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import listing  # noqa: E402
from lister import Builder, Inc, Mac, Sim, Toggle, Want, with_defs  # noqa: E402


class Obs:
    def __init__(self):
        self.mark = self.text = self.value = None
        self.bytes = []


def observe(o):
    """(rows, junk): every source row with the bytes that are shown before or beside it"""
    res = []
    acc = []
    for row in listing.rows(o):
        if row.kind in ('blank', 'head', 'diag'):
            continue
        if row.kind == 'junk':
            return res, row.raw
        if row.data:
            acc += [((row.addr + i), b) for i, b in enumerate(row.data)]
        elif row.addr is not None:
            return res, row.raw
        if row.kind == 'line':
            x = Obs()
            x.mark = row.num if row.num is not None else row.prefix
            x.text, x.value, x.bytes = row.text, row.value, acc
            acc = []
            res.append(x)
    return res, None if not acc else 'bytes after the last line'


def explain(stmts, shown, mask):
    """None if the bytes are those of the statements (more than 20 may be cut short)"""
    i = 0
    for a, d in stmts:
        k = 0
        while k < len(d) and i < len(shown) and shown[i] == ((a + k) & mask, d[k]):
            k += 1
            i += 1
        if k < len(d) and len(d) <= 20:
            return 'statement at %X: expected %s, shown %s' % (a, d.hex(), bytes(b for _, b in shown[i - k:i - k + len(d)]).hex())
        if k < min(len(d), 4) and len(stmts) == 1:
            return 'statement at %X: of %d bytes only %d are shown' % (a, len(d), k)
    if i < len(shown):
        return 'bytes %s are shown, but not generated' % ['%X:%02X' % x for x in shown[i:i + 4]]
    return None


def same(w, g):
    return g.mark == w.mark and g.text.rstrip() == w.text.expandtabs(8).rstrip()


def goes_on(rows, j, got, i, need=2):
    """can got[i:] be the rows[j:], as far as the next rows that must come tell?"""
    if j == len(rows):
        return i == len(got)
    if not need:
        return True
    if i < len(got) and same(rows[j], got[i]) and goes_on(rows, j + 1, got, i + 1, need - (not rows[j].optional)):
        return True
    return rows[j].optional and goes_on(rows, j + 1, got, i, need)


def compare(ctx, r, rows, mask, tag):
    got, junk = observe(r.o)
    if junk is not None:
        ctx.violation(tag + ':junk', 'unexpected row %r' % junk, r)
        return False
    i = 0
    for j, w in enumerate(rows):
        g = got[i] if i < len(got) else None
        if w.optional and (g is None or not same(w, g)):
            continue
        if w.optional and goes_on(rows, j + 1, got, i) and not goes_on(rows, j + 1, got, i + 1):
            continue        # the blank row is one of the next file
        if g is None or not same(w, g):
            ctx.violation(tag + ':row', 'row %d: expected %r, found %s' % (
                i + 1, w, None if g is None else (g.mark, g.text)), r)
            return False
        i += 1
        if w.wild:
            continue
        bad = explain(w.stmts, g.bytes, mask)
        if bad:
            ctx.violation(tag + ':bytes', 'line %s %r: %s' % (w.mark, w.text, bad), r)
            return False
        if (w.value is None) != (g.value is None) or w.value is not None and (w.value ^ g.value) & mask:
            ctx.violation(tag + ':value', 'line %s %r: expected value %s, shown %s' % (
                w.mark, w.text, *('none' if v is None else '%X' % v for v in (w.value, g.value))), r)
            return False
    if i < len(got):
        ctx.violation(tag + ':more', 'unexpected row %s' % ((got[i].mark, got[i].text),), r)
        return False
    return True


TAILS = [' plain', '\ttab\tand\ttabs', ' caf\xc3\xa9 \xe9', '    \x7e   wide   blanks', ' "', " '", ' ' + 'long ' * 30]


def prepare(rng, k):
    far = k % 5 == 0
    faults = rng.choice([0, 0, 0, .05])
    p = gen.program(rng, n=rng.choice([5, 15, 40, 80]), far=far, cpu=None if far else '?', low=rng.random() < .3, faults=faults,
                    warns=rng.choice([0, .05]), long_asc=rng.choice([10, 60]), undef=False, ds_max=rng.choice([25, 300]))
    for x in p.lines:
        if x.err and x.op in ('page', 'list'):
            x.op, x.arg = 'frob', '5'
        if rng.random() < .1 and not x.err:
            x.comment = rng.choice(TAILS)
        if len(x.text().encode()) > 240:
            x.comment = ''
    return p


def nest(nodes):
    """how deep files and macros are nested"""
    return max([0] + [(isinstance(n, (Mac, Inc))) + max(nest(getattr(n, 'body', ())), nest(getattr(n, 'other', ()))) for n in nodes])


def one(ctx, k):
    rng = ctx.check.rng('one', k)
    p = prepare(rng, k)
    kinds = rng.choice([('if',), ('mac',), ('inc',), ('if', 'mac'), ('if', 'inc'), ('if', 'mac', 'inc')])
    b = Builder(rng, p, rng.choice([0, .05, .1, .25]), kinds, rng.choice([0, .05, .15]))
    chain = rng.choice([9, 9, 8, 5]) if k % 4 == 0 else 0
    tree = b.tree(p.lines, 0, chain=chain)
    if chain:
        tree = [Toggle(w, True) for w in ('mlist', 'ilist', 'clist') if rng.random() < .7] + tree
        ctx.seen('chains', nest(tree))
    sim = Sim(rng, p)
    tree = with_defs(tree, sim, rng)
    files = sim.main(tree)
    for n in list(files):
        if n != 't.asm' and rng.random() < .4:
            files[n] = files[n][:-1]        # no newline at the end
    r = ctx.run(files, rng.choice([(), (), ('-s',), ('-x',)]))
    ctx.add('cases')
    for s, v in sim.stats.items():
        ctx.add(s, v)
    ctx.seen('nontrivial', tuple(sorted(files.items())))
    if r.kind != 'exit' or r.code or r.o.fatal or len(r.o.errors) != len(p.errors()):
        ctx.violation('end', 'ended with %s %s, %d errors (%d lines are faulty): %s' % (
            r.describe(), r.o.fatal, len(r.o.errors), len(p.errors()), r.o.errors[:3]), r)
        return
    if compare(ctx, r, sim.rows, 0xffff if p.cpu else 0xffffffff, 'fold'):
        ctx.add('rows', len(sim.rows))
        if not p.errors():
            judge.code(ctx, r, p, 'object')
            ctx.add('objects')
    ctx.sample('%d rows: %s' % (len(sim.rows), sorted(sim.stats.items())))


def widths(ctx, item):
    """statements of every size around the room beside a line"""
    op, n, cpu = item
    if op == 'asc':
        line, data = ' asc "' + 'abcdefghijklmnopqrstuvwxyz' [:n % 26] + 'x' * (n - n % 26) + '"', None
        data = line[6:-1].encode()
    elif op == 'ds':
        line, data = ' ds %d,7' % n, b'\7' * n
    else:
        line, data = ' db ' + ','.join(str(i) for i in range(n)), bytes(range(n))
    body = [' page 0,999'] + ([' cpu ' + cpu] if cpu else []) + ['* = $1234', line, 'lab' + line, line + ' ; comment', 'm macro', line, line, ' endm', ' m', ' db 9']
    rows = []
    a = 0x1234
    depth = 0
    for i, t in enumerate(body):
        w = Want(i + 1, t)
        if t.startswith('*'):
            w.value = a
        elif depth == 0 and (t.startswith(line) or t.startswith('lab')):
            w.stmts = [(a, data)]
            a += n
        elif t == ' m':
            w.stmts = [(a, data), (a + n, data)]
            a += 2 * n
        elif t == ' db 9':
            w.stmts = [(a, b'\x09')]
        depth += t == 'm macro'
        depth -= t == ' endm'
        rows.append(w)
    rows.append(Want(len(body) + 1, '', optional=True))
    r = ctx.run('\n'.join(body) + '\n', ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    if not r.o.ok():
        ctx.violation('widths:refused', 'refused: %s' % r.o.errors[:2], r)
        return
    compare(ctx, r, rows, 0xffff if cpu else 0xffffffff, 'widths')


def long(ctx, n):
    """every line of a long source carries its number"""
    rng = ctx.check.rng('long', n)
    body = [' page 0,200', '* = 0'] + [rng.choice(['; c%d', ' db 1 ; %d', 'x%d', '']).replace('%d', str(i)) for i in range(n)]
    rows = [Want(i + 1, t) for i, t in enumerate(body)]
    rows[1].value = a = 0
    for w, t in zip(rows[2:], body[2:]):
        if t.startswith(' db'):
            w.stmts = [(a, b'\1')]
            a += 1
    rows.append(Want(len(body) + 1, '', optional=True))
    r = ctx.run('\n'.join(body) + '\n', ())
    ctx.add('cases')
    ctx.seen('nontrivial', n)
    if not r.o.ok():
        ctx.violation('long:refused', 'refused: %s' % r.o.errors[:2], r)
        return
    compare(ctx, r, rows, 0xffffffff, 'long')


def wide(ctx, n):
    """lines up to the longest one are shown whole"""
    rng = ctx.check.rng('wide', n)
    body = [' page 0,999', '* = $1234', ';' + 'c' * (n - 1), ' db 1;' + 'd' * (n - 6), ' asc "' + ''.join(rng.choice('abc ,+') for _ in range(n - 7)) + '"',
            'lab asc "' + 'x' * (n - 10) + '"', ' nam x' + ' ' * (n - 6), ' db ' + '+'.join(['0'] * ((n - 4) // 2)), ' db 9']
    rows = []
    a = 0x1234
    for i, t in enumerate(body):
        w = Want(i + 1, t)
        if i == 1:
            w.value = a
        d = b'\1' if i == 3 else t[t.index('"') + 1:-1].encode() if 'asc' in t else b'\0' if ' db 0' in t else b'\x09' if t == ' db 9' else b''
        if d:
            w.stmts = [(a, d)]
            a += len(d)
        rows.append(w)
    rows.append(Want(len(body) + 1, '', optional=True))
    r = ctx.run('\n'.join(body) + '\n', ())
    ctx.add('cases')
    ctx.seen('nontrivial', ('wide', n))
    if not r.o.ok():
        ctx.violation('wide:refused', 'lines of %d characters refused: %s' % (n, r.o.errors[:2]), r)
        return
    compare(ctx, r, rows, 0xffffffff, 'wide')


def go():
    c = Check('C17')
    c.parallel(long, [990, 9990, 33000, 66000, 100100] + ([] if c.quick() else [270000, 1000100]), chunk=1)
    c.parallel(wide, range(12, 250))
    c.parallel(one, range(c.pick(20000, 80000)))
    c.parallel(widths, [(op, n, cpu) for op in ('asc', 'ds', 'db') for n in list(range(1, 60)) + ([100, 200, 255, 256, 1000] if op == 'ds' else [])
                        for cpu in (None, '6502', '6801', 'Z80')])
    c.finish('a program whose listing is known row by row, counted by its files', need=2000)


main(go)
