#!/usr/bin/env python3
"""C02: every run ends, with a verdict the user can read.

Hostile programs, include trees and command lines (lib/hostile.py), every short sequence
of block directives over main and included files, every page size, and the ends of the
nesting limits.  All of them ask for little code and text, so a run that uses up its CPU
time, or prints without end, hangs.  Monitor: the exit status and exactly one of FATAL
ERROR line, usage message and summary; success if and only if there are no errors.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import hostile  # noqa: E402

CPU = 3
SLOW = 4 << 20      # no program here asks for so much text


def verdict(ctx, tag, r, most=SLOW):
    """judge one run"""
    if r.kind in ('hang', 'timeout', 'toobig') or r.kind == 'signal' and r.code in (9, 24) or len(r.out) > most:
        ctx.violation(tag + ':hang', 'does not end: %s, %d bytes of listing' % (r.describe(), len(r.out)), r)
        return None
    o = r.o
    last = ''
    for l in reversed(o.lines):
        if l.strip():
            last = l
            break
    got = []
    if o.fatal is not None:
        got.append('fatal')
    if o.usage:
        got.append('usage')
    if o.nsummaries or o.nwarn is not None or o.success or o.nocode:
        got.append('summary')
    bad = None
    if r.kind != 'exit' or r.code not in (0, 10):
        bad = 'ended with %s' % r.describe()
    elif len(got) != 1:
        bad = 'it says %s' % (' and '.join(got) or 'nothing')
    elif got == ['summary']:
        if o.nsummaries != 1 or o.nerr is None or o.nwarn is None or o.success + o.nocode != 1:
            bad = 'the summary is incomplete or there is more than one'
        elif (o.nerr == 0) != (o.success == 1):
            bad = '%d errors, but the verdict is %s' % (o.nerr, 'success' if o.success else 'no code')
        elif bool(o.errors) != bool(o.nerr):
            bad = '%d errors are reported, %d counted' % (len(o.errors), o.nerr)
        elif r.code != 0:
            bad = 'a summary, but exit status %d' % r.code
        elif o.success and (o.last is None or o.length is None):
            bad = 'success without last address and length'
    elif r.code != 10:
        bad = '%s, but exit status 0' % got[0]
    elif got == ['fatal'] and not last.startswith('FATAL ERROR: '):
        bad = 'the fatal error is followed by %r' % last
    if bad:
        ctx.violation('%s:%s' % (tag, bad.split(' ')[0]), bad + '; the listing ends in %r' % last, r)
        return None
    ctx.add('verdict ' + (got[0] if got != ['summary'] else 'success' if o.success else 'errors'))
    if o.fatal:
        ctx.seen('fatal messages', o.fatal)
    return got[0]


def run(ctx, files, opts=(), obj=False):
    rn = ctx.runner('plain')
    rn.cpu = CPU
    r = rn.run(files, opts, obj)
    ctx.add('executions')
    ctx.add('cases')
    return r


def random_case(ctx, k):
    rng = ctx.check.rng('hostile', k)
    kind, files, opts, obj = hostile.case(rng)
    r = run(ctx, files, opts, obj)
    v = verdict(ctx, kind, r)
    ctx.add('kind ' + kind)
    ctx.seen('nontrivial', str((sorted(files.items()), opts)))
    if v and k < 40:
        ctx.sample('%s %s: %s' % (kind, opts, v))


TOK = {'i': ' if 1', 'o': ' if 0', 'e': ' else', 'c': ' endc', 'm': 'm macro', 'n': ' endm', 'x': ' exitm', 'C': ' m', 'a': ' include a', 'd': ' db 5'}
INC = ['', 'i', 'o', 'c', 'e', 'm', 'n', 'C', 'a', 'd', 'ic', 'mn', 'x']


def blocks(ctx, item):
    """every short sequence of block directives"""
    seq, inc, nl, mlist = item

    def text(s):
        t = '\n'.join(TOK[c] for c in s)
        return t + '\n' if nl and t else t
    files = {'t.asm': ('* = 5\n' if mlist is not None else '') + (' mlist on\n' if mlist else '') + text(seq)}
    if 'a' in seq or 'a' in inc:
        files['a'] = text(inc)
    r = run(ctx, files)
    verdict(ctx, 'blocks', r)
    ctx.seen('nontrivial', item)


def pages(ctx, item):
    p, w, extra = item
    text = ' page %d,%d\n' % (p, w) + extra + ''.join('%s = %d\n' % ('label%d' % i + 'x' * (i % 24), i * 12345678) for i in range(30)) + ' page\n skip 5\n page\n'
    for opts in ((), ('-lx',)):
        r = run(ctx, text, opts)
        if verdict(ctx, 'pages', r) == 'summary':
            ctx.add('page sizes')
    ctx.seen('nontrivial', item)


def arguments(ctx, k):
    rng = ctx.check.rng('args', k)
    args, files = hostile.arguments(rng)
    rn = ctx.runner('plain')
    rn.cpu = CPU
    rn.clean()
    for n, t in files.items():
        p = os.path.join(rn.work, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    r = rn.raw(args)
    r.files, r.args = files, args
    ctx.add('executions')
    ctx.add('cases')
    ctx.seen('nontrivial', str(args))
    v = verdict(ctx, 'arguments', r)
    plain = [a for a in args if a[:1] != '-']
    if v == 'summary' and not plain:
        ctx.violation('arguments:none', 'an assembly without an input file', r)
    if v == 'usage':
        ctx.add('usage messages')


USAGE = [((), True), (('t.asm',), False), (('-l',), True), (('t.asm', 't.asm'), True), (('-q', 't.asm'), True), (('-o', 'c', 't.asm'), False), (('t.asm', '-o', 'c'), False),
         (('-lsx', 't.asm'), False), (('-l', '-s', '-x', 't.asm'), False), (('t.asm', '-lsx'), False), (('-sxlo', 'c', 't.asm'), False), (('--', 't.asm'), True),
         (('-o', 'c'), True), (('nofile',), None), (('-o', 'c', 'nofile'), None), (('-lh', 't.asm'), True), (('-', 't.asm'), False)]


def usage(ctx, item):
    """which command lines are refused"""
    args, want = item
    rn = ctx.runner('plain')
    rn.clean()
    files = {'t.asm': '* = 5\n db 1\n'}
    with open(os.path.join(rn.work, 't.asm'), 'w') as f:
        f.write(files['t.asm'])
    r = rn.raw(args)
    r.files, r.args = files, list(args)
    ctx.add('cases')
    v = verdict(ctx, 'usage', r)
    if v and v != {True: 'usage', False: 'summary', None: 'fatal'}[want]:
        ctx.violation('usage:wrong', 'crasm %s: %s' % (' '.join(args), v), r)


FATALS = {
    'too deep includes': ({'t.asm': ' include t.asm\n'}, 'fatal'),
    'mutual includes': ({'t.asm': ' include a\n', 'a': ' include t.asm\n'}, 'fatal'),
    'recursive macro': ({'t.asm': 'm macro\n m\n endm\n m\n'}, 'fatal'),
    'mutual macros': ({'t.asm': 'm macro\n n\n endm\nn macro\n m\n endm\n m\n'}, 'fatal'),
    'macro and include': ({'t.asm': 'm macro\n include t.asm\n endm\n m\n'}, None),
    'missing include': ({'t.asm': ' include nofile\n'}, 'summary'),
    'open IF': ({'t.asm': ' if 1\n'}, 'summary'),
    'open false IF': ({'t.asm': ' if 0\n'}, 'summary'),
    'open ELSE': ({'t.asm': ' if 1\n else\n'}, 'summary'),
    'open MACRO': ({'t.asm': 'm macro\n'}, 'summary'),
    'empty': ({'t.asm': ''}, 'summary'),
    'nesting IFs': ({'t.asm': ' if 1\n' * 100000}, 'fatal'),
    'nesting false IFs': ({'t.asm': ' if 0\n' * 100000}, None),
    'include 8 deep': ({'t.asm': ' include a0\n', **{'a%d' % i: ' include a%d\n' % (i + 1) for i in range(8)}, 'a8': '; end\n'}, None),
}


def named(ctx, name):
    files, want = FATALS[name]
    for t in (files, {n: x.rstrip('\n') for n, x in files.items()}):
        for opts in ((), ('-lx',)):
            r = run(ctx, t, opts)
            v = verdict(ctx, name, r)
            if v and want and v != want:
                ctx.violation('named:' + name, 'ended with %s instead of %s' % (v, want), r)
    ctx.seen('nontrivial', name)


def growth(ctx, item):
    """work that may only grow with the text: the same construct at two lengths"""
    form, n = item
    text = '* = 0\n x = 1\n'
    text += {'paren': ' db %s1%s\n' % ('(' * n, ')' * n), 'brace': ' db 1%s\n' % ('{1}' * (n // 3)), 'minus': ' db %s1\n' % ('-' * n), 'tilde': ' db %s1\n' % ('~' * n),
             'plus': ' db %s1\n' % ('1+' * (n // 2)), 'mixed': ' db %s1%s\n' % ('(1+' * (n // 4), ')' * (n // 4)), 'open': ' db %s1\n' % ('(' * n),
             'close': ' db 1%s\n' % (')' * n), 'quote': " db %s\n" % ("'" * n), 'dquote': ' asc %s\n' % ('"' * n), 'comma': ' db %s1\n' % ('1,' * (n // 2)),
             'eq': ' if %s1\n endc\n' % ('1=' * (n // 2)), 'eq2': '%s1\n' % ('x=' * (n // 2)), 'semi': ' db 1 %s\n' % ('; ' * (n // 2)), 'open2': ' db %s\n' % ('(1' * (n // 2)),
             'hi': ' db %s1%s\n' % ('HI(' * (n // 4), ')' * (n // 4)), 'blank': ' db 1%s,2\n' % (' ' * n), 'words': ' %s\n' % ('a ' * (n // 2)), 'pq': ' db %s\n' % ("('" * (n // 2)),
             'backslash': ' asc "%s"\n' % ('\\' * n), 'tabs': '\t' * n + 'db 1\n', 'stars': ' db %s\n' % ('*' * n), 'dots': ' db %s\n' % ('.' * n), 'under': ' db %s\n' % ('_' * n),
             'quest': ' db %s\n' % ('?' * n), 'square': ' db %s1%s\n' % ('[' * n, ']' * n), 'ix': ' ld (ix%s),5\n' % ('+1' * (n // 2)), 'hash': ' lda %s1\n' % ('#' * n),
             'shift': ' db 1%s\n' % ('<<1' * (n // 3)), 'cmp': ' if %s1\n endc\n' % ('1<>' * (n // 3)), 'less': ' if %s1\n endc\n' % ('1<' * (n // 2))}[form]
    for cpu in ('', ' cpu z80\n', ' cpu 6502\n', ' cpu 6801\n'):
        r = run(ctx, cpu + text)
        verdict(ctx, 'growth', r)
    ctx.seen('nontrivial', item)


def counts(ctx, item):
    """any number of errors and warnings"""
    e, w = item
    rng = ctx.check.rng('counts', item)
    ls = [rng.choice([' frob', ' db', ' endc', ' lda 5'])] * e + [' db 256'] * w
    rng.shuffle(ls)
    r = run(ctx, '* = 5\n' + '\n'.join(ls) + '\n', rng.choice([(), ('-l',), ('-s',), ('-x',)]))
    if verdict(ctx, 'counts', r, SLOW + 160 * len(ls)) != 'summary':
        ctx.violation('counts:end', '%d errors: %s' % (e, r.describe()), r)
    ctx.seen('nontrivial', item)


SCALE = {
    'up': lambda n: ['l%07d' % i for i in range(n)],
    'down': lambda n: ['l%07d' % (n - i) for i in range(n)],
    'zigzag': lambda n: ['l%07d' % (i // 2 if i & 1 else n - i // 2) for i in range(n)],
    'reversed': lambda n: ['l' + ('%07d' % i)[::-1] for i in range(n)],
    'equs': lambda n: ['q%07d = %d' % (i, i) for i in range(n)],
    'redefined': lambda n: ['q = %d' % i for i in range(n)],
    'forward': lambda n: [' dw l%07d' % i for i in range(n // 2)] + ['l%07d' % i for i in range(n // 2)],
    'backward': lambda n: ['l%07d' % i for i in range(n // 2)] + [' dw l%07d' % i for i in range(n // 2)],
    'unknown': lambda n: [' dl u%07d' % i for i in range(n // 3)],
    'macros': lambda n: [l for i in range(n // 3) for l in ('m%07d macro' % i, ' db 1', ' endm')] + [' m%07d' % (n // 3 - 1)],
    'calls': lambda n: ['m macro', '.l db \\1', ' dw .l', ' endm'] + [' m 5'] * (n // 3),
    'scopes': lambda n: [' code', '.l db 5'] * (n // 2),
    'ifs': lambda n: [' if 1', ' db 1', ' endc'] * (n // 3),
    'skipped': lambda n: [' if 0'] + [' x'] * n + [' else', ' db 1', ' endc'],
    'body': lambda n: ['m macro'] + [' db 1'] * n + [' endm', ' m', ' m'],
    'origins': lambda n: ['* = %d' % (i * 7919 % 65536) for i in range(n // 2)] + [' db 1'] + ['* = *+2', ' db 3'] * (n // 4),
    'sections': lambda n: [' dummy', ' db 1', ' code'] * (n // 3),
    'alias': lambda n: ['a%07d = db' % i for i in range(n // 2)] + [' a%07d 1' % i for i in range(n // 2)],
    'includes': lambda n: [' include f'] * (n // 3),
    'comments': lambda n: ['; c'] * n,
    'strings': lambda n: [' asc "%s"' % ('x' * 200)] * (n // 4),
    'titles': lambda n: [' nam t%d' % (i % 1000) for i in range(n)],
    'exits': lambda n: ['m macro', ' if 1', ' exitm', ' endc', ' endm'] + [' m'] * (n // 3),
}


def scale(ctx, item):
    """long programs: the time grows with them, not faster"""
    form, n = item
    rng = ctx.check.rng('scale', item)
    ls = SCALE[form](n)
    rn = ctx.runner('plain')
    rn.cpu = 8 * max(1, n // 100000)
    r = rn.run({'t.asm': '* = 0\n' + '\n'.join(ls) + '\n', 'f': ' db 1\n'}, rng.choice([(), ('-l',), ('-lx',)]), False)
    ctx.add('executions')
    ctx.add('cases')
    if verdict(ctx, 'scale:' + form, r, SLOW + 400 * len(ls)) != 'summary':
        ctx.violation('scale:end:' + form, '%d lines of %s: %s' % (len(ls), form, r.describe()), r)
    ctx.add('scaled_lines', len(ls))
    ctx.seen('nontrivial', item)


def go():
    c = Check('C02')
    c.MAXVIOL = 3
    c.parallel(named, list(FATALS), chunk=1)
    c.parallel(usage, USAGE)
    forms = ['paren', 'brace', 'minus', 'tilde', 'plus', 'mixed', 'open', 'close', 'quote', 'dquote', 'comma', 'eq', 'eq2', 'semi', 'open2', 'hi', 'blank', 'words', 'pq',
             'backslash', 'tabs', 'stars', 'dots', 'under', 'quest', 'square', 'ix', 'hash', 'shift', 'cmp', 'less']
    c.parallel(growth, [(f, n) for f in forms for n in (4, 20, 60, 120, 200, 230, 240)], chunk=1)
    pw = sorted({(1 << i) + j for i in range(1, c.pick(17, 20)) for j in (-1, 0, 1)} | {10 ** i for i in range(6)} | {768, 1280, 2560, 99999})
    c.parallel(counts, [(e, w) for e in pw for w in ((0, 3) if e < 3000 else (0,))] + [(0, w) for w in pw] + [(n, n) for n in pw if n < 3000], chunk=1)
    c.parallel(scale, [(f, n) for f in SCALE for n in (30000, 100000) + (() if c.quick() else (300000, 1000000))], chunk=1)
    c.parallel(random_case, range(c.pick(40000, 600000)))
    rng = c.rng('blocks')
    items = [(s, i, nl, ml) for n in (1, 2, 3) for s in itertools.product(TOK, repeat=n) for i in (INC if 'a' in s else ['']) for nl in (0, 1) for ml in (None, 1)
             if ml is None or n < 3]
    items += [(s, rng.choice(INC), rng.randrange(2), rng.choice([None, 0, 1])) for s in itertools.product(TOK, repeat=4)]
    items += [(tuple(rng.choice(list(TOK)) for _ in range(rng.randrange(5, 12))), ''.join(rng.choice(list(TOK)) for _ in range(rng.randrange(4))), rng.randrange(2),
               rng.choice([None, 0, 1])) for _ in range(c.pick(6000, 100000))]
    c.parallel(blocks, items)
    c.parallel(pages, [(p, w, e) for p in range(-1, 203, 1 if c.tier == 'thorough' else 3) for w in (38, 39, 50, 61, 62, 80, 122, 123, 999, 1000, 1001) for e in ('', ' frob\n')] +
               [(p, w, '') for p in (0, 10, 66) for w in range(39, 140)])
    c.parallel(arguments, range(c.pick(2000, 20000)))
    c.finish('a run with a verdict, counted by its files and options', need=20000)


main(go)
