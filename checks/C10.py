#!/usr/bin/env python3
"""C10: a macro call is equivalent to writing out its expanded body."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import foldcheck  # noqa: E402
import judge  # noqa: E402
import macwork  # noqa: E402


def direct(ctx, item):
    rng = ctx.check.rng('dir', item)
    w = macwork.Work(rng, rng.choice(['6502', '6801', 'Z80']), faults=rng.choice([0, 0, 0, .1]), nmac=rng.choice([1, 3, 6, 10]),
                     ncalls=rng.choice([3, 10, 25]))
    prog, flat = w.build()
    a = '\n'.join(prog) + '\n'
    b = '\n'.join(flat) + '\n'
    if any(len(l) > 200 for l in flat):
        return
    r = ctx.run(a, ('-l', '-x'))
    f = ctx.run(b, ('-l', '-x'))
    ctx.add('cases')
    ctx.add('calls', w.stats.get('calls', 0))
    ctx.add('expansions', w.calls)
    ctx.add('exitms', w.stats.get('exitm', 0))
    ctx.seen('call_depths', w.maxheight)
    names = {m.name.upper() for m in w.macros}
    if foldcheck.same(ctx, r, f, 'direct', 'macros against their text',
                      drop=lambda x: x[2] == 'Macro' and x[3] in names or x[3].startswith('ZQ')):
        if r.o.ok():
            ctx.add('successful')
        if r.o.nwarn != f.o.nwarn:
            ctx.violation('direct:warnings', '%s warnings against %s' % (r.o.nwarn, f.o.nwarn), r)
        if w.calls:
            ctx.seen('nontrivial', a)
            ctx.sample(a[:600])


def bytes_of(ctx, text, want, tag, files=None, fatal_ok=False):
    f = dict(files or {})
    f['t.asm'] = text
    r = ctx.run(f, ('-l', '-s'))
    ctx.add('cases')
    if fatal_ok and r.kind == 'exit' and r.code == 10 and r.o.fatal:
        if r.obj is not None:
            ctx.violation(tag + ':left', 'a code file after a fatal error', r)
        ctx.add('fatal')
        return r
    ob = judge.run_ok(ctx, r, tag)
    if ob is None:
        return None
    got = bytes(b for _, b in ob.stream())
    if got != want:
        ctx.violation(tag, 'expected %s, found %s' % (want[:40].hex(), got[:40].hex()), r)
        return None
    ctx.seen('nontrivial', text)
    return r


def nesting(ctx, item):
    """chains of macros and files d deep; recursion that ends and that does not"""
    d, style, seed = item
    rng = ctx.check.rng('nest', item)
    files = {}
    if style == 'chain':
        t = ''.join('m%d macro\n db %d\n%s db %d\n endm\n' % (i, i, ' m%d \\1\n' % (i + 1) if i < d else ' db \\1\n', i)
                    for i in reversed(range(1, d + 1)))
        t += '* = 0\n m1 99\n db 5\n'
        want = bytes(list(range(1, d + 1)) + [99] + list(range(d, 0, -1)) + [5])
    elif style == 'rec':
        t = 'n = 0\nrec macro\nn = n+1\n if n<%d\n db n\n rec \\1\n db n\nn = n-1\n else\n db \\1\n endc\n endm\n* = 0\n rec 99\n' % d
        want = bytes(list(range(1, d)) + [99] + list(range(d, 1, -1)))
    elif style == 'mixed':
        # files and macros in any mixture: level i calls level i+1
        t = ''
        call = {}
        kinds = {i: rng.choice('mf') for i in range(1, d + 1)}
        for i in range(1, d + 1):
            call[i] = ' m%d' % i if kinds[i] == 'm' else ' include f%d' % i
        for i in range(1, d + 1):
            body = ' db %d\n%s\n db %d\n' % (i, call[i + 1] if i < d else ' db 99', i)
            if kinds[i] == 'm':
                t += 'm%d macro\n%s endm\n' % (i, body)
            else:
                files['f%d' % i] = body
        t += '* = 0\n%s\n' % call[1]
        # the line after INCLUDE in a macro: the file comes first, as if it stood there
        want = bytes(list(range(1, d + 1)) + [99] + list(range(d, 0, -1)))
    else:
        t = {'forever': 'rec macro\n db 1\n rec\n endm\n* = 0\n rec\n',
             'mutual': 'ma macro\n mb\n endm\nmb macro\n if 1\n ma\n endc\n endm\n* = 0\n db 1\n ma\n',
             'file': '* = 0\n include t.asm\n', 'both': 'ma macro\n include f1\n endm\n* = 0\n ma\n'}[style]
        files['f1'] = ' ma\n'
        r = ctx.run(dict(files, **{'t.asm': t}), ('-l',))
        ctx.add('cases')
        if r.kind != 'exit' or r.code != 10 or not r.o.fatal:
            ctx.violation('forever:' + style, 'endless nesting ended with %s %s' % (r.describe(), r.o.fatal), r)
        elif r.obj is not None:
            ctx.violation('forever:left', 'a code file after a fatal error', r)
        ctx.seen('nontrivial', item)
        return
    bytes_of(ctx, t, want, 'nest:' + style, files, fatal_ok=d > 9)


def limits(ctx, item):
    """operands and lines near the limits"""
    rng = ctx.check.rng('lim', item)
    q = rng.randrange(8)
    if q == 4:
        # operands of every length in every place, handed on by a second macro
        n = rng.randrange(1, 10)
        left = 225
        args = []
        for i in range(n):
            a = rng.choice([0, 1, 2, rng.randrange(1, 40), left, left // 2]) if i < n - 1 else rng.choice([1, 5, left])
            a = min(a, left)
            left -= a + 1
            args.append(rng.choice('abcdxyz') * a)
            if left < 3:
                break
        n = len(args)
        if not args[-1]:
            args[-1] = 'q'
        via = rng.random() < .5
        inner = 'show macro\n db \\#\n%s endm\n' % ''.join(' asc "<\\%d>"\n' % (i + 1) for i in range(n))
        outer = 'via macro\n show %s\n endm\n' % (rng.choice(['\\*', ','.join('\\%d' % (i + 1) for i in range(n))])) if via else ''
        prog = '* = 0\n%s%s %s %s\n db 9\n' % (inner, outer, 'via' if via else 'show', ','.join(args))
        want = bytes([n]) + b''.join(b'<%s>' % a.encode() for a in args) + b'\x09'
        long_ = 0
    elif q == 5:
        # exactly as long as a line may be, and one more
        total = rng.choice([248, 248, 247, 246, 245, 244, 250, 251, rng.randrange(200, 256)])
        a = rng.choice([1, 2, 100, rng.randrange(1, 200)])
        k = rng.choice([1, 1, 2, 3]) if a < 60 else 1
        rest = total - 7 - a * k
        cut = rng.randrange(rest + 1)
        line = ' asc "' + 'l' * cut + '\\1' * k + 'r' * (rest - cut) + '"'
        if len(line) > 249:
            return
        prog = '* = 0\ngrow macro\n%s\n db 7\n endm\n grow %s\n db 9\n' % (line, 'x' * a)
        want = b'l' * cut + b'x' * a * k + b'r' * (rest - cut) + b'\7\x09'
        long_ = total
    elif q == 6:
        total = rng.randrange(230, 249)
        prog = '* = 0\nfix macro\n%s\n db 7\n endm\n fix\n db 9\n' % (' asc "' + 'f' * (total - 7) + '"')
        want = b'f' * (total - 7) + b'\7\x09'
        long_ = total
    elif q == 7:
        # the word ENDM elsewhere than at the end
        t, d = rng.choice([(' nam the endm', b''), (' asc "an ENDM b"', b'an ENDM b'), ('lab asc " endm "', b' endm '), (' asc "endm endm"', b'endm endm'),
                           ('; endm', b''), (' db 1 ; endm', b'\1'), ('endmx = 5', b''), ('xendm db 3', b'\3'), (' db "e" ;endm', b'e'), (' nam x y endm', b'')])
        prog = '* = 0\nfix macro\n%s\n db 7\n endm\n fix\n db 9\n' % t
        want = d + b'\7\x09'
        long_ = 0
    elif q == 0:
        # a line that grows through its operands
        k = rng.randrange(1, 6)
        a = rng.randrange(1, 60)
        text = 'x' * a
        line = ' asc "' + '\\1' * k + '"'
        total = len(line) - 2 * k + a * k
        prog = '* = 0\ngrow macro\n%s\n db 7\n endm\n grow %s\n db 9\n' % (line, text)
        want = text.encode() * k + b'\7\x09'
        long_ = total
    elif q == 1:
        a = rng.randrange(100, 235)
        text = 'y' * a
        prog = '* = 0\ngrow macro\n asc "\\*%s"\n db 7\n endm\n grow %s\n db 9\n' % ('z' * 10, text)
        want = text.encode() + b'z' * 10 + b'\7\x09'
        long_ = a + 17
    elif q == 2:
        n = rng.randrange(0, 12)
        args = [str(rng.randrange(256)) for _ in range(n)]
        prog = '* = 0\ncnt macro\n db \\#\n%s endm\n cnt %s\n db 9\n' % (''.join(' db \\%d+0\n' % (i + 1) for i in range(min(n, 9))),
                                                                  ','.join(args))
        want = bytes([n] + [int(x) for x in args] + [9])
        long_ = 0 if n <= 9 else 1000
    else:
        # empty operands in the middle, operands not supplied
        args = [rng.choice(['', 'a', 'b+c', '(x,y)', '"q,r"'.replace('"', "'")]) for _ in range(rng.randrange(1, 9))] + ['end']
        prog = '* = 0\nshow macro\n db \\#\n%s endm\n show %s\n' % (
            ''.join(' asc "<\\%d>"\n' % (i + 1) for i in range(9)), rng.choice([',', ', ', ' ,']).join(args))
        want = bytes([len(args)]) + b''.join(b'<%s>' % (args[i].encode() if i < len(args) else b'') for i in range(9))
        long_ = 0
    if long_ >= 250:
        r = ctx.run(prog, ('-l',))
        ctx.add('cases')
        ctx.add('too_long')
        if r.kind != 'exit' or r.code != 0 or not r.o.errors or r.obj is not None:
            ctx.violation('long', 'text that cannot be expanded completely is not an error (%s)' % r.describe(), r)
        ctx.seen('nontrivial', prog)
    elif long_ <= 248:
        bytes_of(ctx, prog, want, 'limit')


def again(ctx, i):
    """a macro is defined once: a second definition is an error, not a call; one that is skipped is nothing"""
    rng = ctx.check.rng('again', i)
    n = rng.choice(['foo', 'Mac.1', 'put_c'])
    word = rng.choice(['macro', 'MACRO', 'Macro'])
    body = rng.choice([' db 1\n', '', ' if 1\n db 1\n else\n db 2\n endc\n', ' else\n', ' endc\n', ' db \\1+1\n exitm\n'])
    first = '%s macro\n db 7\n endm\n' % n
    second = '%s%s%s%s\n%s endm\n' % (rng.choice([n, n.upper(), n.lower()]), rng.choice([' ', '\t', '   ']), word,
                                     rng.choice(['', ' ; again', '  ']), body)
    call = ' %s 5\n' % n if rng.random() < .5 else ''
    ctx.add('cases')
    ctx.seen('nontrivial', ('again', i))
    q = rng.randrange(4)
    if q == 3:
        # not inside a macro either
        body = second.split('\n')[0] + '\n'
        wrap = rng.choice(['outer macro\n db 1\n%s db 2\n endm\n', 'outer macro\n%s endm\n', 'outer macro\n if 1\n%s endc\n db 4\n endm\n'])
        r = ctx.run('* = 0\n' + (first + call if rng.random() < .8 else '') + wrap % body + ' outer\n db 9\n', rng.choice([(), ('-l',)]))
        if r.kind != 'exit' or r.o.ok() or r.obj is not None:
            ctx.violation('inside', 'a macro is defined, or called, by a definition inside another one: %s' % r.describe(), r)
    elif q == 0:
        r = ctx.run('* = 0\n' + first + call + second + ' db 9\n', rng.choice([(), ('-l',)]))
        line = 5 + (call != '')
        if r.kind != 'exit' or r.o.ok() or (r.code == 0 and line not in r.o.errlines()) or r.obj is not None:
            ctx.violation('again', 'a second definition of a macro is not an error of its line %d: %s %s' % (
                line, r.describe(), r.o.errors), r)
    elif q == 1:
        bytes_of(ctx, '* = 0\n' + first + call + ' if 0\n' + second + ' endc\n' + call + ' db 9\n',
                 b'\7' * (2 * (call != '')) + b'\x09', 'skipped')
    else:
        # the name of an EQU symbol may become a macro, once
        bytes_of(ctx, '* = 0\n%s = 5\n db %s\n' % (n, n) + first + call + ' db 9\n', b'\5' + b'\7' * (call != '') + b'\x09', 'equ')


def folded(ctx, i):
    rng = ctx.check.rng('fk', i)
    kinds = rng.choice([('mac',), ('mac',), ('mac', 'if'), ('mac', 'inc'), ('if', 'inc', 'mac')])
    foldcheck.random_fold(ctx, i, kinds, rng.choice([0, 0, 0, .08]), density=rng.choice([.1, .2, .4]), generic=rng.choice([.1, .5]))


def go():
    c = Check('C10')
    q = c.pick(3, 12)
    c.parallel(direct, range(8000 * q))
    c.parallel(nesting, [(d, s, k) for d in range(1, 14) for s in ('chain', 'rec', 'mixed') for k in range(8 if s == 'mixed' else 1)] +
               [(0, s, 0) for s in ('forever', 'mutual', 'file', 'both')])
    c.parallel(limits, range(2000 * q))
    c.parallel(again, range(600 * q))
    c.parallel(folded, range(5000 * q))
    c.finish('random macro programs against the text an independent expander makes of them, chains and recursions of every depth, '
             'operand limits, flat programs folded into macros; non-trivial: distinct programs with expansions', need=8000)


main(go)
