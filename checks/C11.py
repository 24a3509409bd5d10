#!/usr/bin/env python3
"""C11: including a file equals having its lines in place."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import fold  # noqa: E402
import foldcheck  # noqa: E402
import gen  # noqa: E402
import macwork  # noqa: E402


WORD = re.compile(r'^(?:\s+|[A-Za-z_.][\w.]*\s+)(if|else|endc|macro|endm)\b', re.I)


HEADER = re.compile(r'^\s*[A-Za-z_.][\w.]*\s+macro\s*(;.*)?$', re.I)


def states(lines):
    """before each line: (inside a macro definition, depth of open IFs); and after the last"""
    res = []
    mac, depth = False, 0
    for l in lines:
        res.append((mac, depth))
        m = WORD.match(l)
        w = m.group(1).lower() if m else ''
        if mac:
            if w == 'endm':
                mac = False
        elif w == 'macro':
            mac = bool(HEADER.match(l))
        elif w == 'if':
            depth += 1
        elif w == 'endc':
            depth -= 1
    res.append((mac, depth))
    return res


class Cutter:
    def __init__(self, rng, density):
        self.rng, self.density = rng, density
        self.files = {}
        self.n = 0
        self.deepest = 0
        self.odd = 0

    def cut(self, lines, level):
        """the lines with stretches of them moved to files"""
        r = self.rng
        self.deepest = max(self.deepest, level)
        st = states(lines)
        out = []
        i = 0
        while i < len(lines):
            if level < 8 and not st[i][0] and r.random() < self.density:
                ends = [j for j in range(i, min(len(lines), i + 60) + 1)
                        if st[i][1] == 0 or (min(x[1] for x in st[i:j + 1]) >= st[i][1] and st[j] == (False, st[i][1]) and
                                             not self.elses(lines, st, i, j))]
                j = r.choice(ends)
                self.n += 1
                name = r.choice(['p%d.inc', 'dir/P%d', 'q-%d.s', '_%d', 'a b%d']) % self.n
                if st[j] != (False, 0) and st[i][1] == 0:
                    self.odd += 1
                self.files[name] = self.join(self.cut(lines[i:j], level + 1) if st[i][1] == 0 and st[j] == (False, 0) else lines[i:j])
                out.append(r.choice([' include %s', '\tINCLUDE  %s', '  Include %s ; file']) % name)
                i = j
                continue
            out.append(lines[i])
            i += 1
        return out

    def elses(self, lines, st, i, j):
        """an ELSE of the conditional around the stretch"""
        return any(st[k] == (False, st[i][1]) and WORD.match(lines[k]) and WORD.match(lines[k]).group(1).lower() == 'else'
                   for k in range(i, j))

    def join(self, lines):
        t = ''.join(l + '\n' for l in lines)
        # the last line needs no newline; an empty last line without one is no line
        if t and lines[-1] and self.rng.random() < .5:
            t = t[:-1]
        return t


def source(ctx, rng, item):
    q = rng.random()
    if q < .3:
        w = macwork.Work(rng, rng.choice(['6502', '6801', 'Z80']), faults=rng.choice([0, 0, .1]))
        return w.build()[0]
    p = gen.program(rng, n=rng.choice([5, 20, 50]), faults=rng.choice([0, 0, 0, .08]), low=rng.random() < .3,
                    warns=rng.choice([0, .04]))
    f = fold.Fold(p, rng, kinds=rng.choice([('if',), ('mac',), ('if', 'mac')]), density=.15, newline=False, generic=.1)
    files = f.build()
    return files['t.asm'].split('\n')[:-1]


def cutting(ctx, item):
    rng = ctx.check.rng('cut', item)
    lines = source(ctx, rng, item)
    c = Cutter(rng, rng.choice([.02, .08, .25]))
    top = c.cut(lines, 0)
    if not c.n:
        return
    files = dict(c.files)
    files['t.asm'] = c.join(top)
    r = ctx.run(files, ('-l', '-x'))
    f = ctx.run('\n'.join(lines) + '\n', ('-l', '-x'))
    ctx.add('cases')
    ctx.add('includes', c.n)
    ctx.add('odd_cuts', c.odd)
    ctx.seen('depths', c.deepest)
    if b'too many nested INCLUDEs and MACROs' in r.out and c.deepest >= 4 and b'FATAL' not in f.out:
        # the files and the nested macro calls together pass the documented limit
        ctx.add('over_limit')
        return
    if foldcheck.same(ctx, r, f, 'cut', 'cut into %d files' % c.n):
        ctx.seen('nontrivial', tuple(sorted(files.items())))
        ctx.add('successful', r.o.ok())
        if r.o.nwarn != f.o.nwarn:
            ctx.violation('cut:warnings', '%s warnings against %s' % (r.o.nwarn, f.o.nwarn), r)


def deep(ctx, item):
    """a program spread over a chain of files, each of which includes the next one: up to the limit of 9"""
    rng = ctx.check.rng('deep', item)
    lines = source(ctx, rng, item)
    depth = rng.choice([2, 4, 7, 8, 9, 9, 9])
    files = {}
    part = lines
    name = 't.asm'
    for d in range(depth):
        st = states(part)
        cuts = [i for i, x in enumerate(st) if x == (False, 0)]
        room = len(cuts) // (2 * (depth - d) + 1) + 1
        i = rng.choice(cuts[:room])
        j = rng.choice([c for c in cuts[-room:] if c >= i])
        nxt = 'd%d.inc' % d
        files[name] = '\n'.join(part[:i] + [' include ' + nxt] + part[j:]) + rng.choice(['\n', ''] if j < len(part) and part[-1] else ['\n'])
        part, name = part[i:j], nxt
    files[name] = ''.join(l + '\n' for l in part)
    r = ctx.run(files, ('-l', '-x'))
    f = ctx.run('\n'.join(lines) + '\n', ('-l', '-x'))
    ctx.add('cases')
    if b'too many nested INCLUDEs and MACROs' in r.out and b'FATAL' not in f.out and any('macro' in l.lower() for l in lines):
        ctx.add('over_limit')
        return
    if foldcheck.same(ctx, r, f, 'deep', 'a chain of %d files' % depth):
        ctx.seen('nontrivial', tuple(sorted(files.items())))
        ctx.seen('chains', depth)
        ctx.add('successful chains of 9', r.o.ok() and depth == 9)
        if r.o.nwarn != f.o.nwarn:
            ctx.violation('deep:warnings', '%s warnings against %s' % (r.o.nwarn, f.o.nwarn), r)


def newline(ctx, item):
    """the same program with and without newlines at the ends of its files"""
    rng = ctx.check.rng('nl', item)
    lasts = [' db 7', 'lab', 'lab2 db 1', ' endm', ' endc', ' else', ' if 1', ' ; comment', 'x9 = 5', ' include g', ' m 5', ' frob', ' db nosuch',
             ' dummy', ' exitm', ' db 300', 'z macro', ' list off', ' fail told', ' page', " asc 'abc'", ' align even', ' ds 3']
    last = rng.choice(lasts)
    before = rng.choice([[], [' db 1'], [' if 1', ' db 2'], [' if 0', ' db 3'], ['m9 macro', ' db 4'], ['a%d = 1' % rng.randrange(9)]])
    inner = before + [last]
    main_ = ['m macro', ' db \\1', ' endm', '* = $100', ' db 9', ' include f', ' db 10', ' endc', ' endm', ' db 11']
    where = rng.choice(['f', 'f', 't.asm', 'g'])
    base = {'g': [' db 55', ' db 56'], 'f': inner, 't.asm': main_}
    if where == 't.asm':
        base['t.asm'] = main_[:-4] + inner
        base['f'] = [' db 1']
    elif where == 'g':
        base['g'] = inner if last != ' include g' else [' db 1']
        base['f'] = [' include g']
    files = {n: '\n'.join(l) + '\n' for n, l in base.items()}
    bare = dict(files)
    for n in files:
        if rng.random() < .7:
            bare[n] = files[n][:-1]
    if last == ' include g' and where == 'g':
        return
    bare[where] = files[where][:-1]
    a = ctx.run(files, ('-l', '-x'))
    b = ctx.run(bare, ('-l', '-x'))
    ctx.add('cases')
    if foldcheck.same(ctx, b, a, 'newline', 'without final newlines'):
        ctx.seen('nontrivial', (last, tuple(before), where))


def special(ctx, item):
    rng = ctx.check.rng('sp', item)
    q = item % 6
    if q == 0:          # the same file many times
        n = rng.randrange(1, 60)
        files = {'f': 'n = n+1\n db n\n' + rng.choice(['', ' include g\n', ' include g']), 'g': rng.choice(['', '\n', '; c', ' db n*2\n'])}
        t = '* = 0\nn = 0\n' + ' include f\n' * n + ' db 99'
        g = files['g'] if 'include' in files['f'] else ''
        flat = '* = 0\nn = 0\n' + ('n = n+1\n db n\n' + g + '\n') * n + ' db 99'
    elif q == 1:        # recursion that ends
        n = rng.randrange(1, 9)
        files = {'f': 'n = n+1\n db n\n if n<%d\n include f\n endc\n db n' % n}
        t = '* = 0\nn = 0\n include f\n db 99\n'
        flat = '* = 0\nn = 0\n' + ''.join(' db %d\n' % (i + 1) for i in range(n)) + 'n = %d\n' % n + ' db n\n' * n + ' db 99\n'
    elif q == 2:        # empty files
        files = {'f': rng.choice(['', '\n', '\n\n\n', ' ', '\t\n', ';', ' ; x\n'])}
        t = '* = 0\n' + rng.choice(['', ' db 1\n']) + ' include f\n' * rng.randrange(1, 5) + rng.choice(['', ' db 2', ' db 2\n'])
        flat = t.replace(' include f\n', '\n')
    elif q == 3:        # missing files: one error each
        k = rng.randrange(1, 5)
        files = {'f': ' include nosuch1\n db 5\n'}
        t = '* = 0\n' + ''.join(' db %d\n%s' % (i, rng.choice([' include nosuch\n', ' include dir/none.asm ; x\n', ' include\n'])) for i in range(k)) + \
            ' include f\n db 7\n'
        r = ctx.run(dict(files, **{'t.asm': t}), ('-l',))
        ctx.add('cases')
        if r.kind != 'exit' or r.code != 0 or r.o.nerr != k + 1 or r.obj is not None:
            ctx.violation('missing', '%s errors for %d missing files (%s)' % (r.o.nerr, k + 1, r.describe()), r)
        return
    elif q == 4:        # chains
        n = rng.randrange(1, 10)
        files = {'f%d' % i: ' db %d\n%s db %d%s' % (i, ' include f%d\n' % (i + 1) if i < n else '', i, rng.choice(['', '\n']))
                 for i in range(1, n + 1)}
        t = '* = 0\n include f1\n db 77\n'
        flat = '* = 0\n' + ''.join(' db %d\n' % i for i in list(range(1, n + 1)) + list(range(n, 0, -1))) + ' db 77\n'
    else:               # a file larger than the buffers, long lines
        k = rng.randrange(1, 3000)
        body = ''.join(' db %d%s\n' % (i & 255, ' ;' + 'x' * rng.choice([0, 1, 100, 230]) if rng.random() < .3 else '') for i in range(k))
        files = {'f': body[:-1] if rng.random() < .5 else body}
        t = '* = 0\n db 1\n include f\n db 2\n'
        flat = '* = 0\n db 1\n' + body + ' db 2\n'
    r = ctx.run(dict(files, **{'t.asm': t}), ('-l', '-x'))
    f = ctx.run(flat, ('-l', '-x'))
    ctx.add('cases')
    if foldcheck.same(ctx, r, f, 'special%d' % q, 'include'):
        if not f.o.ok() and f.o.nerr:
            ctx.violation('special%d:refused' % q, 'the flat program was refused: %s' % f.o.errors[:2], f)
        ctx.seen('nontrivial', t + repr(files))


def leaving(ctx, item):
    """EXITM in files that macros include: against the lines in the macros; with faults
    behind the calls, whose reports must carry the same numbers"""
    rng = ctx.check.rng('leave', item)
    n = [0]
    files = {}
    uniq = [0]

    def body(level, last):
        """(lines of the cut program, lines of the flat one)"""
        cut, flat = [], []
        for _ in range(rng.randrange(1, 4)):
            uniq[0] += 1
            t = rng.choice([' db %d' % rng.randrange(256), 'n = n+1', ' db n&255', '; c', '', ' dw n,%d' % rng.randrange(9999), '.l%d dw .l%d' % (uniq[0], uniq[0])])
            cut.append(t)
            flat.append(t)
        if level < 4 and rng.random() < .5:
            n[0] += 1
            name = 'x%d.inc' % n[0]
            c, f = body(level + 1, last)
            files[name] = '\n'.join(c) + rng.choice(['\n', ''])
            cut.append(' include ' + name)
            flat += f
        if rng.random() < .5 or last and level == 0:
            cond = rng.choice(['1', '0', 'n>3', 'n<=2', 'n = 5', '1', None])
            ex = [' exitm']
            if cond is not None:
                ex = [' if ' + cond] + rng.choice([ex, ex + [' db 91'], [' db 90'] + ex]) + rng.choice([[], [' else', ' db 92'], [' else', ' exitm']]) + [' endc']
            cut += ex
            flat += ex
        uniq[0] += 1
        t = ' db %d' % rng.randrange(256)
        return cut + [t], flat + [t]
    c, f = body(0, True)
    pad = rng.randrange(0, 3)
    head = [' page 0,250', ' cpu 6502', '* = $100', 'n = 0']
    calls = []
    for _ in range(rng.choice([1, 3, 10, 150])):
        calls += ['lab%d' % len(calls), ' mm'] + rng.choice([[], [], ['n = n+1'], [' db n&255'], [' frob'], [' db 300'], [' oo']])
    outer = ['oo macro', ' db 1', ' mm', ' db 2', ' endm']
    t1 = head + ['mm macro'] + c + [' endm'] + [''] * (len(f) - len(c) + pad) + outer + calls + [' db 77']
    t2 = head + ['mm macro'] + f + [' endm'] + [''] * pad + outer + calls + [' db 77']
    opts = rng.choice([('-x',), (), ('-l', '-x')])
    a = ctx.run(dict(files, **{'t.asm': '\n'.join(t1) + '\n'}), opts)
    b = ctx.run('\n'.join(t2) + '\n', opts)
    ctx.add('cases')
    ctx.add('left_files', n[0])
    if foldcheck.same(ctx, a, b, 'leave', 'EXITM in a file', symbols='-x' in opts):
        if n[0]:
            ctx.seen('nontrivial', repr((t1, sorted(files.items()))))
        if a.o.nwarn != b.o.nwarn or [d[:2] for d in a.o.diags] != [d[:2] for d in b.o.diags]:
            ctx.violation('leave:reports', 'the reports differ: %s, %s' % (a.o.diags[:8], b.o.diags[:8]), a)


def folded(ctx, i):
    rng = ctx.check.rng('fk', i)
    kinds = rng.choice([('inc',), ('inc',), ('inc', 'if'), ('inc', 'mac'), ('if', 'inc', 'mac')])
    foldcheck.random_fold(ctx, i, kinds, rng.choice([0, 0, 0, .08]), density=rng.choice([.05, .15, .3]))


def go():
    c = Check('C11')
    q = c.pick(2, 12)
    c.parallel(cutting, range(5000 * q))
    c.parallel(deep, range(1500 * q))
    c.parallel(newline, range(1500 * q))
    c.parallel(special, range(1200 * q))
    c.parallel(folded, range(4000 * q))
    c.parallel(leaving, range(1500 * q))
    c.finish('programs cut into files at random places (also inside conditionals and macro definitions) against the uncut program, '
             'all kinds of last lines with and without newline, repeated, recursive, empty, missing and large files, flat programs '
             'folded into files; non-trivial: distinct programs with included files', need=5000)


main(go)
