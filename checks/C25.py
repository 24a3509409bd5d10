#!/usr/bin/env python3
"""C25: the options mean what the manual says, however the command line is written.

One program is run with one set of options in a plain spelling and in many others
(clusters, separate words, any order, repeated, before and after the file).  Monitored:
both streams, the exit status and every file of the directory; what each option must
and must not change; command lines that must be refused.
"""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import listing  # noqa: E402
import objfile  # noqa: E402

NAMES = ['t.asm', 'prog', 'a b.asm', 'sub/t.asm', './t.asm', 'x;y.asm', 't.a-s', 's', 'lsx', '_', 'T.ASM', 'o']
OUTS = ['code.out', 'c', 'out dir/c', 'x.s19', '-c', '-o', '-l', '-', 't', 'a' * 100, 'l', './c.hex', '-sx']


def spell(rng, opts, out, src):
    """argument list for a set of letters, an output name and the input's name"""
    letters = [c for c in opts for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    rng.shuffle(letters)
    words = []
    while letters:
        n = rng.randrange(1, len(letters) + 1)
        words.append(''.join(letters[:n]))
        letters = letters[n:]
    words = [[w] for w in words]
    if out is not None:
        i = rng.randrange(len(words) + 1)
        if words and i < len(words) and rng.random() < .5:
            words[i] = [words[i][0] + 'o', out]
        else:
            words.insert(i, ['o', out])
    words = [['-' + w[0]] + w[1:] for w in words]
    words.insert(rng.randrange(len(words) + 1), [src])
    return [x for w in words for x in w]


def plain(opts, out, src):
    return ['-' + c for c in sorted(opts)] + (['-o', out] if out is not None else []) + [src]


def files_of(d):
    res = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                res[os.path.relpath(p, d)] = f.read()
    return res


def run(ctx, text, src, args, old=None):
    rn = ctx.runner('plain')
    rn.clean()
    p = os.path.join(rn.work, src)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    os.makedirs(os.path.join(rn.work, 'out dir'))
    with open(p, 'wb') as f:
        f.write(text.encode('latin-1'))
    if old:
        with open(os.path.join(rn.work, old), 'w') as f:
            f.write('an older file\n')
    r = rn.raw(args)
    r.files, r.args = {src: text}, args
    ctx.add('executions')
    return r, files_of(rn.work)


def program(rng):
    return gen.program(rng, n=rng.choice([3, 10, 25]), faults=rng.choice([0, 0, .2]), warns=rng.choice([0, .15]), undef=False, cpu='?')


LINE = re.compile(r'^.{21} *\d+  ')


def spelling(ctx, k):
    rng = ctx.check.rng('sp', k)
    p = program(rng)
    text = p.text()
    src = rng.choice(NAMES)
    out = rng.choice([None] + [o for o in OUTS if os.path.normpath(o) != os.path.normpath(src)] * 2)
    opts = ''.join(c for c in 'lsx' if rng.random() < .5)
    a, fa = run(ctx, text, src, plain(opts, out, src))
    ctx.add('cases')
    for _ in range(4):
        args = spell(rng, opts, out, src)
        b, fb = run(ctx, text, src, args)
        ctx.seen('nontrivial', (opts, tuple(args)))
        if (a.kind, a.code, a.out, a.err) != (b.kind, b.code, b.out, b.err):
            ctx.violation('spelling', '%s is not the same as %s' % (args, a.args), b, extra='other run:\n' + a.out.decode('latin-1')[:3000])
            return
        if fa != fb:
            ctx.violation('spelling:files', '%s leaves other files than %s: %s, %s' % (args, a.args, sorted(fb), sorted(fa)), b)
            return
    meaning(ctx, p, a, fa, opts, out, src, text)
    ctx.sample(' '.join(args))


def meaning(ctx, p, a, fa, opts, out, src, text):
    """what the run said and left, against its options"""
    if a.kind != 'exit' or a.code != 0 or a.o.nerr is None:
        ctx.violation('meaning:end', 'the run ended with %s' % a.describe(), a)
        return
    ok = a.o.ok()
    # the files
    want = {os.path.normpath(src): text.encode('latin-1')}
    left = {os.path.normpath(n): t for n, t in fa.items()}
    o = left.pop(os.path.normpath(out), None) if out is not None else None
    if left != want:
        ctx.violation('meaning:files', 'files left: %s' % sorted(fa), a)
        return
    if (o is not None) != (out is not None and ok):
        ctx.violation('meaning:code', '-o %s: %s file after %s' % (out, 'a' if o is not None else 'no', 'success' if ok else 'errors'), a)
        return
    if o is not None:
        try:
            if objfile.parse(o).stream() != p.stream():
                ctx.violation('meaning:bytes', 'the code file %s holds other code' % out, a)
                return
        except objfile.FormatError as e:
            ctx.violation('meaning:bytes', 'the code file %s: %s' % (out, e), a)
            return
    # warnings
    if 's' in opts and a.o.warnings:
        ctx.violation('meaning:s', '-s, but %s' % a.o.warnings[:2], a)
        return
    # the symbol table
    end = a.o.summary_at
    tail = a.o.lines[end:]
    table = listing.symtab(a.o)[0]
    expect = bool(p.table()) and ('x' in opts or ('l' not in opts and ok))
    if bool(table) != expect:
        ctx.violation('meaning:x', 'options %r, %s: %s symbol table' % (opts, 'success' if ok else 'errors', 'a' if table else 'no'), a)
        return
    # the listing
    n = sum(1 for l in a.o.lines[:end] if LINE.match(l))
    diag = len(a.o.errors) + len(a.o.warnings)
    if 'l' in opts:
        if n > diag:
            ctx.violation('meaning:l', '-l, but %d lines are listed' % n, a)
    elif n < len(p.lines):
        ctx.violation('meaning:list', '%d lines listed, the source has %d' % (n, len(p.lines)), a)
    # progress goes to the error stream, and only there
    if a.err.count(b'Pass #') != 2 or b'Pass #' in a.out:
        ctx.violation('meaning:progress', 'progress messages on the wrong stream', a)
    ctx.add('with errors' if not ok else 'successful')
    del tail


def refused(ctx, k):
    """an unknown option, two input files, none: a usage message, and nothing is done"""
    rng = ctx.check.rng('re', k)
    src = 't.asm'
    opts = ''.join(c for c in 'lsx' if rng.random() < .5)
    out = rng.choice([None, 'c', 'old'])
    args = spell(rng, opts, out, src)
    kind = rng.choice(['letter', 'letter', 'two', 'none'])
    if kind == 'letter':
        bad = rng.choice('abcdefghijkmnpqrtuvwyzLSXO0129-+?hV')
        w = [i for i, x in enumerate(args) if x[:1] == '-' and (i == 0 or args[i - 1][:1] != '-' or not args[i - 1].endswith('o'))
             and not x.endswith('o')]
        if w and rng.random() < .7:
            i = rng.choice(w)
            j = rng.randrange(1, len(args[i]) + 1)
            args[i] = args[i][:j] + bad + args[i][j:]
        else:
            i = rng.choice([i for i in range(len(args) + 1) if i == 0 or not (args[i - 1][:1] == '-' and args[i - 1].endswith('o'))])
            args.insert(i, '-' + bad)
    elif kind == 'two':
        i = rng.choice([i for i in range(len(args) + 1) if i == 0 or not (args[i - 1][:1] == '-' and args[i - 1].endswith('o'))])
        args.insert(i, rng.choice(['t.asm', 'u.asm', 'nofile', '', './t.asm']))
    else:
        args.remove(src)
    r, left = run(ctx, '* = 5\n db 1\n', src, args, 'old')
    ctx.add('cases')
    ctx.seen('nontrivial', tuple(args))
    ctx.seen('kinds', kind)
    if r.kind != 'exit' or r.code != 10 or not r.o.usage or r.o.nsummaries:
        ctx.violation('refused:' + kind, '%s is accepted: %s' % (args, r.describe()), r)
        return
    if left != {'t.asm': b'* = 5\n db 1\n', 'old': b'an older file\n'}:
        ctx.violation('refused:files', '%s is refused, but changes files: %s' % (args, left), r)
        return
    # the processors it knows are listed
    for cpu in gen.CPUS:
        if not re.search(r'(?<!\w)%s(?!\w)' % cpu, r.o.text, re.I):
            ctx.violation('refused:cpus', 'the usage message does not name %s' % cpu, r)
            return


def own(ctx, k):
    """FILE is one of the source files: refused, and all files stay as they are"""
    rng = ctx.check.rng('own', k)
    rn = ctx.runner('plain')
    rn.clean()
    w = rn.work
    n = rng.randrange(4)
    names = ['t.asm'] + rng.sample(['a.inc', 'sub/b', 'c d', 'e.s19'], n)
    files = {}
    for i, nm in enumerate(names):
        files[nm] = ['* = 256'] if i == 0 else []
        files[nm] += [' db %d' % rng.randrange(256) for _ in range(rng.randrange(4))]
        if rng.random() < .2:
            files[nm].append(rng.choice([' db nosuch', ' frob']))
    inmac = set()
    for i in range(1, len(names)):
        up = names[rng.choice([0, i - 1])]
        at = files[up]
        inc = [' include ' + names[i]]
        q = rng.random()
        if q < .2:
            inc = [' if 1'] + inc + [' endc']
        elif q < .4 and up not in inmac:    # no macro is defined in a macro
            inmac.add(names[i])
            inc = ['m%d macro' % i] + inc + [' endm', ' m%d' % i]
        if up in inmac:
            inmac.add(names[i])
        j = rng.choice([j for j in range(at is files['t.asm'], len(at) + 1)
                        if sum(x.endswith(' macro') for x in at[:j]) == at[:j].count(' endm')])
        at[j:j] = inc
    os.makedirs(os.path.join(w, 'sub'), exist_ok=True)
    for nm in names:
        with open(os.path.join(w, nm), 'w') as f:
            f.write('\n'.join(files[nm]) + rng.choice(['', '\n']))
    t = rng.choice(names)
    how = rng.choice(['same', 'dot', 'up', 'abs', 'sym', 'hard'])
    out = {'same': t, 'dot': './' + t, 'up': 'sub/../' + t, 'abs': os.path.join(w, t)}.get(how, 'link.out')
    if how == 'sym':
        os.symlink(t, os.path.join(w, out))
    elif how == 'hard':
        os.link(os.path.join(w, t), os.path.join(w, out))
    before = files_of(w)
    opts = ''.join(c for c in 'lsx' if rng.random() < .4)
    r = rn.raw(spell(rng, opts, out, 't.asm'))
    r.files, r.args = {nm: '\n'.join(x) for nm, x in files.items()}, [out]
    after = files_of(w)
    ctx.add('executions')
    ctx.add('cases')
    ctx.seen('nontrivial', (how, t, tuple(tuple(x) for x in files.values())))
    ctx.seen('own', (how, names.index(t)))
    if after != before:
        ctx.violation('own:files', '-o %s, a source file: %s changed' % (out, [x for x in before if after.get(x) != before[x]]), r)
    elif r.kind != 'exit' or r.code != 10 or not r.o.fatal:
        ctx.violation('own:refused', '-o %s, a source file, is accepted: %s' % (out, r.describe()), r)


def go():
    c = Check('C25')
    c.parallel(own, range(c.pick(1500, 20000)))
    c.parallel(spelling, range(c.pick(4000, 60000)))
    c.parallel(refused, range(c.pick(4000, 40000)))
    c.finish('random programs with random sets of options and file names, each in 5 spellings of the command line; command lines with an '
             'unknown letter, a second input or none; non-trivial: distinct command lines', need=3000)


main(go)
