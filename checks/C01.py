#!/usr/bin/env python3
"""C01: no input makes the assembler commit a memory error or undefined behaviour.

The real program is built with gcc's and clang's address and undefined behaviour
sanitizers (clang's also with local-bounds), with clang's memory sanitizer, and with gcc's fortified string
functions, canaries and patterns in fresh variables; it runs hostile programs, include trees and command lines.  Monitor: the sanitizers'
reports, and signals.  A run under gcov says which part of the program was reached.
"""
import itertools
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main, build  # noqa: E402
import hostile  # noqa: E402

SAN = ['casan', 'msan', 'asan', 'fortify']


def judge(ctx, tag, r, variant):
    ctx.add('runs ' + variant)
    if r.kind == 'exit' and r.code in (0, 10):
        return True
    if r.kind in ('hang', 'timeout', 'toobig') or r.kind == 'signal' and r.code in (9, 24):
        ctx.inconclusive += 1
        return False
    text = r.err.decode('latin-1')
    m = re.search(r'SUMMARY: (\S+): (\S+) (\S+)(?: in (\w+))?', text) or re.search(r'runtime error: (.*)', text)
    key = ' '.join(x for x in m.groups() if x) if m else r.describe()
    key = re.sub(r'0x[0-9a-f]+|/\S*/', '', key)
    at = re.search(r'#\d+ \S+ in (?!_|printf|str|mem|puts|vprintf|interceptor)(\w+)', text)
    what = '%s: %s%s' % (variant, key, ' (%s)' % at.group(1) if at else '')
    ctx.violation('%s:%s' % (variant, key), what + ', ' + tag, r, extra='variant: %s\n%s' % (variant, text[-6000:]))
    return False


def case(ctx, item):
    variant, k = item
    rng = ctx.check.rng('hostile', k)
    kind, files, opts, obj = hostile.case(rng)
    r = ctx.runner(variant).run(files, opts, obj)
    ctx.add('executions')
    ctx.add('cases')
    ctx.add('kind ' + kind)
    ctx.seen('nontrivial', hash(str((sorted(files.items()), opts))))
    if judge(ctx, kind, r, variant) and k < 40:
        ctx.sample('%s %s under %s: %s' % (kind, opts, variant, r.describe()))


def arguments(ctx, item):
    variant, k = item
    rng = ctx.check.rng('args', k)
    args, files = hostile.arguments(rng)
    rn = ctx.runner(variant)
    rn.clean()
    for n, t in files.items():
        p = os.path.join(rn.work, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    r = rn.raw(args)
    r.files, r.args = files, args
    ctx.add('executions')
    ctx.add('cases')
    ctx.seen('nontrivial', hash(str(args)))
    judge(ctx, 'arguments', r, variant)


def grid(ctx, item):
    """one construct at every length"""
    variant, form, lo, hi = item
    for n in range(lo, hi):
        text = form(n) if callable(form) else FORMS[form](n)
        r = ctx.runner(variant).run(text.encode('latin-1', 'replace'), ('-x',), False)
        ctx.add('executions')
        ctx.add('cases')
        ctx.seen('nontrivial', (form, n))
        if not judge(ctx, 'grid %s %d' % (form, n), r, variant):
            return


Q = '"'
FORMS = {
    'label': lambda n: '* = 0\n%s db 1\n%s2\n db %s\n' % ('l' * n, 'l' * n, 'l' * n),
    'local': lambda n: '* = 0\nx\n.%s db 1\n db .%s\n' % ('l' * n, 'l' * n),
    'section': lambda n: '* = 0\n%s.%s db 1\n db %s.%s\n' % ('s' * (n // 2), 'l' * (n - n // 2), 's' * (n // 2), 'l' * (n - n // 2)),
    'equ': lambda n: '%s = %s\n' % ('e' * n, '1' * n),
    'mnemonic': lambda n: ' cpu z80\n %s\n %s 5\nx %s a,b\n' % ('m' * n, 'm' * n, 'm' * n),
    'size field': lambda n: ' cpu 6502\n lda.%s 5\n ld%s\n' % ('b' * n, '.' * n),
    'title': lambda n: ' nam %s\n page\n' % ('t' * n),
    'fail': lambda n: ' fail %s\n' % ('f' * n),
    'include': lambda n: ' include %s\n include %s/x\n' % ('i' * n, '.' * n),
    'comment': lambda n: ' page 0,80\n;%s\n db 1 ;%s\n' % ('c' * n, 'c ' * (n // 2)),
    'asc': lambda n: '* = 0\n asc "%s"\n asc \'%s\'\n asc "%s\n' % ('a' * n, 'b' * n, 'c' * n),
    'escapes': lambda n: '* = 0\n asc "%s"\n asc "%s\\"\n db \'%s\'\n' % ('\\n' * (n // 2), '\\' * n, '\\' * n),
    'dquotes': lambda n: ' asc %s\n %s\n%s db 1\n' % (Q * n, Q * n, Q * n),
    'quotes': lambda n: " db %s\n %s\n%s db 1\n" % ("'" * n, "'" * n, "'" * n),
    'parentheses': lambda n: '* = 0\n db %s1%s\n db %s\n db %s\n' % ('(' * (n // 2), ')' * (n // 2), '(' * n, ')' * n),
    'braces': lambda n: '* = 0\n db 1%s\n db %s1%s\n' % ('{1}' * (n // 3), '{' * (n // 2), '}' * (n // 2)),
    'prefixes': lambda n: '* = 0\n db %s1\n db %s1\n db %s\n' % ('-' * n, '~' * n, '-' * n),
    'operators': lambda n: '* = 0\n db %s1\n db 1%s\n dl %s\n' % ('1+' * (n // 2), '*1' * (n // 2), '<<' * (n // 2)),
    'lists': lambda n: '* = 0\n db %s\n dw %s1\n dl %s1\n' % (',' * n, '1,' * (n // 2), '1,' * (n // 2)),
    'digits': lambda n: '* = 0\n dl %s,$%s\n dl %%%s\n dl %sh,%sq,%sb\n' % ('9' * (n // 2), 'f' * (n // 2), '1' * n, '0' * (n // 3), '7' * (n // 3), '1' * (n // 3)),
    'macro name': lambda n: '%s macro\n db 1\n endm\n %s\n' % ('m' * n, 'm' * n),
    'macro line': lambda n: '* = 0\nm macro\n asc "%s"\n endm\n m\n' % ('x' * n),
    'macro argument': lambda n: '* = 0\nm macro\n asc "\\1"\n db \\2\n asc "\\*"\n endm\n m %s,%s\n m %s\n' % ('x' * (n // 2), '1' * (n // 2), 'y' * n),
    'argument list': lambda n: '* = 0\nm macro\n db \\#,\\*\n endm\n m %s1\n m %s\n' % ('1,' * (n // 2), ',' * n),
    'expanded line': lambda n: '* = 0\nm macro\n asc "\\1\\1\\1\\1"\n%s\n endm\n m %s\n' % ('\\1' * 5, 'z' * n),
    'arguments': lambda n: 'm macro\n%s\n endm\n m %s\n' % ('\\1' * n, 'ab'),
    'open if': lambda n: ' if %s\n endc\n if 1%s\n endc\n' % ('(' * n, '=1' * (n // 2)),
    'blanks': lambda n: '%sdb 1\n db%s1\n db 1%s\n%s\n%s;\n' % ((' ' * n,) * 5),
    'tabs': lambda n: ' page 0,60\n%s;x\n db 1%s;y\n' % ('\t' * n, '\t' * n),
    'binary': lambda n: '%s\n db %s\n asc "%s"\n' % ('\xff' * n, '\x80' * n, '\xe9' * n),
    'control': lambda n: '%s db 1\n%s\n' % ('\x01' * n, '\x7f\x1b' * (n // 2)),
    'cpu': lambda n: ' cpu %s\n output %s\n list %s\n align %s\n' % (('c' * n,) * 4),
    'index': lambda n: ' cpu z80\n* = 0\n ld (ix%s),5\n ld a,(iy%s)\n jp (%s)\n' % ('+1' * (n // 2), '-1' * (n // 2), 'h' * n),
    'operands 6502': lambda n: ' cpu 65C02\n* = 0\n lda (%s,x)\n lda (%s),y\n lda %s,x\n lda #%s\n jmp (%s)\n' % (('1' * n,) * 5),
    'operands 6800': lambda n: ' cpu 6301\n* = 0\n ldaa %s,x\n ldaa #%s\n aim %s,%s\n' % ('1' * n, '1' * n, '1' * (n // 2), '1' * (n // 2)),
    'commas': lambda n: ' cpu z80\n* = 0\n ld %s\n ld a%s\n jr nz%s\n' % (',' * n, ',' * n, ',b' * (n // 2)),
    'long comment rows': lambda n: ' page 20,%d\n%s; %s\n db 1 ; %s\n' % (max(39, n), ' ' * (n // 2), 'x' * (n // 2), 'y ' * (n // 2)),
    'page width': lambda n: ' page 0,%d\n nam title\nlabel_with_31_characters_0123456 = 5\n db 1 ;%s\n' % (n * 4, 'x' * 200),
    'page length': lambda n: ' page %d,80\n page\n skip %d\n frob\n' % (n, n),
    'ds': lambda n: '* = 0\n ds %d\n ds %d,%d\n dummy\n ds %d\n' % (n, n, n, n * 1000),
    'nested if': lambda n: ' if %d\n' % (n & 1) * n * 5 + ' db 1\n' + ' else\n endc\n' * n * 5,
    'many errors': lambda n: ' frob\n' * n * 3,
    'many macros': lambda n: ''.join('m%d macro\n db %d\n endm\n' % (i, i) for i in range(n)) + ''.join(' m%d\n' % i for i in range(n)),
    'redefined macro': lambda n: 'm macro\n%s endm\nm macro\n endm\n m\n' % (' db 1\n' * n),
}


def large(ctx, item):
    """more lines, symbols, errors, addresses than anything else here has"""
    variant, kind = item
    n = ctx.check.pick(100, 1000) * 1000 + 20
    if kind == 'lines':
        t = '* = 0\n' + '\n' * n + ' db 1\nx\n frob\n db 256\n'
    elif kind == 'errors':
        t = '* = 0\n' + ' frob\n db 256\n' * n
    elif kind == 'bytes':
        t = '* = $fff00000\n ds 1000000,5\n' * 3 + ' page 0,200\n ds 2000000\n'
    elif kind == 'pages':
        t = ' page 10,39\n* = 0\n' + ' db 1,2,3,4,5,6,7,8,9,10\n' * (n // 2)
    elif kind == 'scopes':
        t = '* = 0\n' + ' code\n.l db 1\n' * (n // 30)
    else:
        t = '* = 0\nm macro\n.l db \\1\n endm\n' + ' m 5\n' * (n // 30)
    r = ctx.runner(variant).run(t, ('-x',), True)
    ctx.add('executions')
    ctx.add('cases')
    ctx.seen('nontrivial', ('large', kind))
    judge(ctx, 'large ' + kind, r, variant)


def coverage(ctx, item):
    kind, k = item
    rng = ctx.check.rng('gcov', kind, k)
    _, files, opts, obj = hostile.case(rng, kind)
    ctx.runner('gcov').run(files, opts, obj)
    ctx.add('runs gcov')


def reached():
    """lines of the program that the runs under gcov executed"""
    d = build('gcov')
    have = total = 0
    missed = {}
    for root, _, names in os.walk(d):
        g = [n for n in names if n.endswith('.gcda')]
        if not g:
            continue
        out = subprocess.run(['gcov', '-t'] + g, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode('latin-1')
        src = '?'
        for l in out.split('\n'):
            m = re.match(r'\s*([0-9]+\*?|#####|=====|-):\s*(\d+):(.*)', l)
            if not m:
                continue
            if m.group(2) == '0':
                if m.group(3).startswith('Source:'):
                    src = os.path.basename(m.group(3)[7:])
                continue
            if 'runner' in src or m.group(1) == '-':
                continue
            total += 1
            if m.group(1)[0] in '#=':
                missed.setdefault(src, []).append(int(m.group(2)))
            else:
                have += 1
    return have, total, missed


def go():
    c = Check('C01')
    c.MAXVIOL = 4
    n = c.pick(24000, 400000)
    c.parallel(case, [(SAN[k % 4], k) for k in range(n)], variants=SAN, chunk=16)
    sizes = [(1, 8), (26, 36), (74, 84), (114, 134), (196, 202), (224, 262), (296, 304), (508, 514)] if c.quick() else [(i, i + 20) for i in range(1, 600, 20)] + [(998, 1004)]
    c.parallel(grid, [(v, f, a, b) for f, v in itertools.product(FORMS, SAN[:2] + SAN[3:] if c.quick() else SAN) for a, b in sizes], variants=SAN, chunk=1)
    c.parallel(arguments, [(SAN[k % 4], k) for k in range(c.pick(1500, 15000))], variants=SAN)
    c.parallel(large, [(v, k) for v in SAN for k in ('lines', 'errors', 'bytes', 'pages', 'scopes', 'calls')], variants=SAN, chunk=1)
    c.parallel(coverage, [(k, i) for i in range(c.pick(100, 400)) for k in hostile.KINDS], variants=['gcov'])
    have, total, missed = reached()
    c.finish('a run under a sanitizer, counted by its files and options', need=10000, lines_reached='%d of %d' % (have, total),
             lines_missed={k: v for k, v in sorted(missed.items())},
             assumptions=['gcc and clang sanitizers report every out of bounds access, use of uninitialised memory and undefined operation that happens in a run, '
                          'but for overflows inside of one object'])


main(go)
