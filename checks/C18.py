#!/usr/bin/env python3
"""C18: presentation never changes the generated code.

Random programs of every kind (flat, folded into conditionals, macros and include files,
faulty ones) are assembled plainly; then with every set of options, and with listing
directives strewn over all of their files.  Monitors: the object file, the symbol table,
the verdict and the number of errors are the same, and the flat programs also have the
bytes that are known for them.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import fold  # noqa: E402
import foldcheck  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import macwork  # noqa: E402

OPTS = [o for k in range(4) for o in itertools.permutations(['-l', '-s', '-x'], k)] + \
    [('-lsx',), ('-sl',), ('-xs',), ('-xl',), ('-ll',), ('-s', '-s')]
TITLES = ['x', 'a title', 'Title; not a comment', '"quoted"', "it''s", '1', 'x' * 30, 'a,b,c', '(', 'db 1', '%d%s']


def command(rng, opts, obj):
    """the same request, with the arguments in any order and the letters joined in any way"""
    groups = [[o] for o in opts] + [['t.asm']]
    if obj:
        q = rng.random()
        if q < .3 and opts:
            o = rng.choice(groups[:-1])
            groups.remove(o)
            groups.append([o[0] + 'o', 'code.out'])
        else:
            groups.append(['-o', 'code.out'])
    rng.shuffle(groups)
    return [a for g in groups for a in g]


def source(rng):
    """files, and the Prog if the bytes are known"""
    q = rng.random()
    if q < .2:
        w = macwork.Work(rng, rng.choice(['6502', '6801', 'Z80']), faults=rng.choice([0, 0, .1]))
        return {'t.asm': '\n'.join(w.build()[0]) + '\n'}, None
    p = gen.program(rng, n=rng.choice([3, 10, 30, 80]), faults=rng.choice([0, 0, 0, .1]), low=rng.random() < .3,
                    warns=rng.choice([0, .05]), far=q < .3, cpu='?' if q > .3 else None, long_asc=rng.choice([10, 150]))
    if q < .5:
        return {'t.asm': p.text()}, p
    f = fold.Fold(p, rng, kinds=rng.choice([('if',), ('mac',), ('inc',), ('if', 'mac', 'inc')]), density=.15,
                  newline=rng.random() < .5, generic=.1)
    return f.build(), p


def directive(rng, page):
    """a directive that is never an error"""
    q = rng.random()
    sp = rng.choice([' ', '\t', '   '])
    if q < .5:
        return sp + rng.choice(['list', 'mlist', 'clist', 'ilist', 'LIST']) + ' ' + rng.choice(['on', 'off', 'ON', ' Off', 'on '])
    if q < .6:
        return sp + 'skip ' + rng.choice(['0', '1', '3', '9', '100', '101', '-1', '1+1'])
    if q < .75:
        return sp + rng.choice(['page', 'PAGE', 'page ; c'])
    if q < .9 and page:
        return sp + 'page %s,%s' % (rng.choice(['0', '10', '11', '20', '66', '200', '$20']),
                                     rng.choice(['39', '40', '62', '76', '100', '132', '255', '999', '1000']))
    return sp + 'nam ' + rng.choice(TITLES)


def strew(rng, text, density, page):
    out = []
    lines = text.split('\n')
    last = lines.pop()
    if last:
        lines.append(last)
    n = 0
    for l in lines:
        while rng.random() < density:
            out.append(directive(rng, page))
            n += 1
        out.append(l)
    if not lines or not last:
        return ''.join(x + '\n' for x in out), n
    return '\n'.join(out), n


BAD = [' nam ' + 'x' * 31, ' nam', ' nam ' + 'long title ' * 9, ' page 9,76', ' page 201,76', ' page 66,38', ' page 66,1001', ' page 66', ' page -1,76',
       ' page nosuch,76', ' page 66,', ' skip', ' skip nosuch', ' skip 1,2', ' list', ' list maybe', ' mlist', ' mlist 1', ' clist', ' clist no',
       ' ilist', ' ilist onn', 'lab%d nam x', 'lab%d list on', 'lab%d page', 'lab%d skip 1', ' output', ' output foo', ' cpu', ' cpu 8080', ' fail',
       ' fail told', ' include nofile', ' include', ' page 10,39,5', ' db 1,', ' align', ' code x', ' dummy x', ' endc', ' else', ' endm', ' frob',
       '1x db 1', ' if', ' exitm x', 'q%d macro x', ' asc', ' asc "x', ' ds', ' ds -1', '* = nosuch']


def faulty(rng, text, density):
    """faults of all directives, strewn over a file"""
    out = []
    n = 0
    for l in text.split('\n')[:-1]:
        while rng.random() < density:
            b = rng.choice(BAD)
            if b.lstrip().split()[0] in ('if', 'exitm', 'else', 'endm', 'endc') and rng.random() < .8:
                continue
            out.append(b.replace('%d', '%d' % rng.randrange(1000, 9999)))
            n += 1
        out.append(l)
    return ''.join(l + '\n' for l in out), n


def one(ctx, k):
    rng = ctx.check.rng('one', k)
    files, p = source(rng)
    if rng.random() < .25:
        d = rng.choice([.02, .1])
        for f in list(files):
            if files[f].endswith('\n'):
                files[f], n = faulty(rng, files[f], d)
                if n:
                    p = None
                    ctx.add('faulty_directives', n)
    base = ctx.run(files, ('-l', '-x'))
    ctx.add('cases')
    ctx.sample(files['t.asm'][:300])
    if p is not None and not p.errors() and len(files) == 1:
        if not judge.code(ctx, base, p, 'base'):
            return
    tag = 'opt'
    for opts in rng.sample(OPTS, 3):
        args = command(rng, opts, True)
        r = ctx.run(files, args=args)
        ctx.add('variants')
        ctx.seen('options', tuple(args))
        tab = '-x' in opts or 'x' in ''.join(opts) or '-l' not in opts and 'l' not in ''.join(opts)
        if not foldcheck.same(ctx, r, base, tag, 'options %s' % (args,), symbols=tab):
            return
        if 's' not in ''.join(opts) and r.o.nwarn != base.o.nwarn:
            ctx.violation('opt:warn', 'options %s: %s warnings, not %s' % (args, r.o.nwarn, base.o.nwarn), r)
            return
        if (r.o.last, r.o.length) != (base.o.last, base.o.length):
            ctx.violation('opt:summary', 'options %s: the summary gives %s' % (args, (r.o.last, r.o.length)), r)
            return
    for _ in range(2):
        page = rng.random() < .5
        d = rng.choice([.02, .1, .3])
        new, n = {}, 0
        for f, t in files.items():
            new[f], m = strew(rng, t, d, page)
            n += m
        if not n:
            continue
        ctx.add('directives', n)
        ctx.add('variants')
        r = ctx.run(new, rng.choice([(), (), ('-x',), ('-l', '-x'), ('-s',)]))
        # a narrow page folds the table's lines
        if not foldcheck.same(ctx, r, base, 'dir', '%d directives strewn in' % n, symbols=not page):
            return
        if (r.o.last, r.o.length) != (base.o.last, base.o.length):
            ctx.violation('dir:summary', 'directives: the summary gives %s' % ((r.o.last, r.o.length),), r)
            return
        ctx.seen('nontrivial', new['t.asm'])
    # the very same program without -o
    r = ctx.run(files, obj=False, args=command(rng, rng.choice(OPTS), False))
    if (r.o.nerr, r.o.ok(), r.o.last, r.o.length) != (base.o.nerr, base.o.ok(), base.o.last, base.o.length):
        ctx.violation('noobj', 'without -o: %s errors, %s, %s, %s' % (r.o.nerr, r.o.ok(), r.o.last, r.o.length), r)


def single(ctx, item):
    """one directive at one place of a program that touches everything, in every state"""
    rng = ctx.check.rng('single', item)
    name, arg, place = item
    cpu = rng.choice(gen.CPUS)
    d = ' %s %s' % (name, arg)
    parts = dict(head='', top='', skipped='', taken='', macro='', inc='', dummy='', end='')
    parts[place] = d + '\n'
    long = ' db ' + ','.join(str(i % 256) for i in range(40)) + ' ; ' + 'word ' * 20
    t = ('%s cpu %s\n%s\n* = $200\n' % (parts['head'], cpu, 'mm macro\n' + parts['macro'] + ' db \\1\n' + ' if \\1>5\n' + parts['macro'] +
         ' dw \\1\n endc\n endm') + parts['top'] + 'lab db 1\n' + long + '\n if 0\n' + parts['skipped'] + ' db 2\n else\n' + parts['taken'] +
         ' db 3\n endc\n mm 4\n mm 6\n include f\n ds 30,7\n' + ' asc "' + 'text' * 12 + '"\n dummy\n' + parts['dummy'] +
         'dum ds 5\n code\nfin dw lab,fin,dum\nq = fin-lab\n dl q\n' + parts['end'])
    inc = parts['inc'] + ' db 77\n' + parts['inc'] + ' db 78\n'
    a = ctx.run({'t.asm': t, 'f': inc}, ())
    b = ctx.run({'t.asm': t.replace(d + '\n', ''), 'f': inc.replace(d + '\n', '')}, ())
    ctx.add('cases')
    ctx.add('variants')
    if not b.o.ok():
        ctx.violation('single:base', 'a correct program was refused: %s' % b.o.errors[:3], b)
        return
    if foldcheck.same(ctx, a, b, 'single:%s' % name, '%s %s in %s' % (name, arg, place), symbols=name != 'page' or not arg):
        ctx.seen('nontrivial', item)


def singlebad(ctx, item):
    """one faulty directive at one place: reported once, whatever is listed"""
    rng = ctx.check.rng('bad', item)
    bad, place = item
    bad = bad.replace('%d', '7')
    cpu = rng.choice(gen.CPUS)
    parts = dict(head='', top='', skipped='', taken='', macro='', inc='', dummy='', end='')
    parts[place] = bad + '\n'
    t = (' cpu %s\n%s\n%s* = $200\n' % (cpu, 'mm macro\n' + parts['macro'] + ' db \\1\n endm', parts['head']) + parts['top'] +
         'lab db 1\n if 0\n' + parts['skipped'] + ' db 2\n else\n' + parts['taken'] +
         ' db 3\n endc\n mm 4\n mm 6\n include f\n dummy\n' + parts['dummy'] + 'dum ds 5\n code\nfin dw lab,fin,dum\n' + parts['end'])
    inc = parts['inc'] + ' db 77\n db 78\n'
    base = ctx.run({'t.asm': t, 'f': inc}, ('-l', '-x'))
    ctx.add('cases')
    for opts in [(), ('-l',), ('-x',), ('-s',), ('-s', '-l')]:
        r = ctx.run({'t.asm': t, 'f': inc}, opts)
        ctx.add('variants')
        if not foldcheck.same(ctx, r, base, 'bad:opt', '%r in %s, options %s' % (bad, place, opts), symbols=opts == ('-x',)):
            return
    for pre in ['list off', 'list on', 'mlist on', 'clist off', 'ilist on', 'page', 'page 0,100', 'page 20,60', 'skip 2', 'nam x']:
        r = ctx.run({'t.asm': ' %s\n' % pre + t, 'f': inc}, rng.choice([('-x',), ('-x', '-s'), ('-x', '-l')]))
        ctx.add('variants')
        if not foldcheck.same(ctx, r, base, 'bad:dir', '%r in %s below %r' % (bad, place, pre), symbols='page ' not in pre):
            return
    ctx.seen('nontrivial', item)


def go():
    c = Check('C18')
    c.parallel(singlebad, [(b, pl) for b in BAD for pl in ('head', 'top', 'skipped', 'taken', 'macro', 'inc', 'dummy', 'end')])
    c.parallel(one, range(c.pick(8000, 60000)))
    items = [(n, a, pl) for n, args in [('list', ['on', 'off']), ('mlist', ['on', 'off']), ('clist', ['on', 'off']), ('ilist', ['on', 'off']),
                                        ('nam', TITLES), ('page', ['', '0,39', '10,39', '200,1000', '0,1000', '66,76', '12,77']),
                                        ('skip', ['0', '1', '50', '100', '101', '-5'])]
             for a in args for pl in ('head', 'top', 'skipped', 'taken', 'macro', 'inc', 'dummy', 'end')]
    c.parallel(single, items)
    c.finish('random programs against themselves under three random option sets (of all orders and spellings) and twice with listing '
             'directives strewn over all their files; every directive alone at every kind of place; non-trivial: distinct strewn programs',
             need=1000)


main(go)
