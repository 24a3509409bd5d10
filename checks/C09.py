#!/usr/bin/env python3
"""C09: conditional assembly selects exactly the documented branch."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import fold  # noqa: E402
import foldcheck  # noqa: E402
import listing  # noqa: E402
import judge  # noqa: E402
import objfile  # noqa: E402
from numtext import Nums, number  # noqa: E402

B = [0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff]
VALUES = sorted({v for x in B for v in (x, -x)} | {-0x80000000, -0x7fffffff})
OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<>': lambda a, b: a != b,
       '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def expect(ctx, text, want, tag, opts=('-l', '-s'), files=None):
    f = dict(files or {})
    f['t.asm'] = text
    r = ctx.run(f, opts)
    ob = judge.run_ok(ctx, r, tag)
    if ob is None:
        return False
    got = bytes(b for _, b in ob.stream())
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        ctx.violation(tag, 'decision %d: expected %s, found %s (of %d and %d)' % (
            i, want[i:i + 4].hex(), got[i:i + 4].hex(), len(want), len(got)), r)
        return False
    return True


# 1. every comparison over boundary values, in many spellings
def compare(ctx, item):
    a, seed = item
    rng = ctx.check.rng('cmp', a, seed)
    names = {}
    out = [' cpu %s' % rng.choice(['6502', '6801', 'Z80']), '* = $1000']
    body = []
    want = b''

    def spell(v):
        q = rng.random()
        if q < .4:
            return '-%s' % number(-v, rng) if v < 0 else number(v, rng)
        if q < .6:
            n = names.setdefault(v, 'val%d' % len(names))
            return rng.choice([n, n.upper()])
        if q < .8:
            k = rng.randrange(0, 1000)
            if -0x80000000 <= v - k:
                w = v - k
                return '%s+%d' % ('-%s' % number(-w, rng) if w < 0 else number(w, rng), k)
        return number(v & 0xffffffff, rng)
    others = VALUES if not seed else [rng.choice([a, a + 1, a - 1, -a, rng.randrange(-1 << 31, 1 << 31), a ^ 1 << rng.randrange(31)])
                                      for _ in range(12)]
    for b in others:
        b = (b + (1 << 31) & 0xffffffff) - (1 << 31)
        for op, fn in OPS.items():
            sp = rng.choice(['', ' ', '  ', '\t'])
            t = fn(a, b)
            body += [' if %s%s%s%s%s' % (spell(a), sp, op, rng.choice([sp, ' ', '']), spell(b)), ' db 1', ' else', ' db 0', ' endc']
            want += bytes([t])
            ctx.add('comparisons')
    body += [' if ' + spell(a), ' db 1', ' else', ' db 0', ' endc', ' if', ' db 2', ' endc']
    want += bytes([a != 0])
    for v, n in names.items():
        out.append('%s = %s' % (n, number(v & 0xffffffff, rng)))
    ctx.add('cases')
    if expect(ctx, '\n'.join(out + body) + '\n', want, 'compare'):
        ctx.seen('nontrivial', (a, seed))


# 2. a little language: counters, nested conditions, junk in the branches not taken
def interp(ctx, item):
    rng = ctx.check.rng('int', item)
    n = {c: rng.randrange(-5, 6) for c in ('na', 'nb', 'nc')}
    out = [' cpu 6502', '* = $200'] + ['%s = %d' % kv for kv in n.items()]
    want = []
    fb = fold.Fold(type('P', (), {'lines': []})(), rng, conds=None)
    junk = [j for j in fold.JUNK if j]

    def cond(take):
        c, d = rng.choice(list(n)), rng.choice(list(n))
        op = rng.choice(list(OPS))
        k = rng.randrange(-5, 6)
        q = rng.random()
        if q < .4:
            t, v = '%s%s%d' % (c, op, k), OPS[op](n[c], k)
        elif q < .7:
            t, v = '%s %s %s' % (c, op, d), OPS[op](n[c], n[d])
        elif q < .85:
            t, v = '%s+%s' % (c, d), n[c] + n[d] != 0
        else:
            t, v = '%s-(%d) %s %s*2' % (c, k, op, d), OPS[op](n[c] - k, n[d] * 2)
        if not take and rng.random() < .3:
            t = rng.choice(['undefd', '((', '', 'na = HL', 'na >', "'"])
        return t, v

    def block(depth, active, size):
        for _ in range(size):
            q = rng.random()
            if q < .3:
                b = rng.randrange(256)
                out.append(' db %d' % b)
                if active:
                    want.append(b)
            elif q < .5:
                c = rng.choice(list(n))
                k = rng.randrange(-3, 4)
                out.append('%s = %s%+d' % (c, c, k))
                if active:
                    n[c] += k
            elif q < .6 and not active:
                j = rng.choice(junk)
                out.append(j % 5 if '%d' in j else j)
            elif depth < 12:
                t, v = cond(active)
                out.append((rng.choice([' if ', '\tIF ', '  If ']) + t).rstrip() + rng.choice(['', ' ; comment']))
                ctx.add('conditions')
                if active:
                    ctx.seen('nestings', (depth, v))
                block(depth + 1, active and v, rng.choice([0, 1, 2, 3]))
                if rng.random() < .7:
                    out.append(rng.choice([' else', '\tELSE', ' Else ; x']))
                    block(depth + 1, active and not v, rng.choice([0, 1, 2, 3]))
                out.append(rng.choice([' endc', '\tENDC', ' EndC ; x']))
    block(0, True, rng.choice([5, 10, 20]))
    if rng.random() < .3:
        # inside a macro
        ok = not any('\\' in o or 'macro' in o.lower() or 'endm' in o.lower() or 'exitm' in o.lower() for o in out)
        if ok:
            out[2:] = ['all macro'] + out[2:] + [' endm', ' all']
            ctx.add('in_macros')
    ctx.add('cases')
    if expect(ctx, '\n'.join(out) + '\n', bytes(want), 'interp'):
        ctx.seen('nontrivial', tuple(out))
        ctx.sample('\n'.join(out[:40]))
    del fb


# 3. pairing: token sequences, balanced or not
def pairing(ctx, item):
    rng = ctx.check.rng('pair', item)
    toks = []
    for _ in range(rng.choice([4, 6, 10, 16])):
        toks.append(rng.choice(['T', 'F', 'E', 'C', 'C', 'b', 'b']))
    judge_pairs(ctx, toks)


def judge_pairs(ctx, toks):
    lines = ['* = $200']
    want = []
    stack = []          # [selected now, seen else, enclosing active]
    bad = None
    for i, t in enumerate(toks):
        active = all(s[0] for s in stack)
        n = len(lines) + 1
        if t == 'b':
            lines.append(' db %d' % (i & 255))
            if active:
                want.append((n, i & 255))
        elif t in 'TF':
            lines.append(' if %d' % (t == 'T'))
            stack.append([t == 'T', False])
        elif t == 'E':
            lines.append(' else')
            if not stack or stack[-1][1]:
                bad = n
                break
            stack[-1] = [not stack[-1][0], True]
        else:
            lines.append(' endc')
            if not stack:
                bad = n
                break
            stack.pop()
    ctx.add('cases')
    ctx.seen('nontrivial', tuple(toks))
    text = ''.join(l + '\n' for l in lines)
    if bad is None and not stack:
        ctx.add('balanced')
        expect(ctx, text, bytes(b for _, b in want), 'pair')
        return
    r = ctx.run(' page 0,250\n' + text, ('-s',))
    ctx.add('unpaired' if bad else 'unterminated')
    if r.kind != 'exit' or r.code != 0 or r.o.fatal:
        ctx.violation('pair:end', 'ended with %s' % r.describe(), r)
        return
    if not r.o.errors or r.o.ok() or r.obj is not None:
        ctx.violation('pair:accepted', 'an %s conditional is not an error' % ('unpaired' if bad else 'unterminated'), r)
        return
    if bad and r.o.errors[0][0] != bad + 1:
        ctx.violation('pair:line', 'the first error is in line %d, the unpaired line is %d' % (r.o.errors[0][0], bad + 1), r)
        return
    # what comes before the mistake took effect as it should
    got = [(row.num - 1, row.data[0]) for row in listing.rows(r.o) if row.data and row.num]
    if got != want:
        ctx.violation('pair:effect', 'lines with effect: expected %s, found %s' % (want[:6], got[:6]), r)


# 4. what a skipped branch may contain: any line of text
def anything(ctx, item):
    rng = ctx.check.rng('any', item)
    chars = ''.join(map(chr, range(32, 127))) + '\t'

    def noise():
        q = rng.random()
        if q < .5:
            s = ''.join(rng.choice(chars) for _ in range(rng.choice([1, 3, 10, 40, 120, 240])))
        elif q < .8:
            s = rng.choice(['', 'lab ', 'x: ']) + ' ' + rng.choice(
                ['db', 'dw', 'asc', 'ds', 'include', 'cpu', 'output', 'org', 'equ', 'fail', 'align', 'nam', 'page', 'skip', 'list',
                 'mlist', 'clist', 'ilist', 'code', 'dummy', 'lda', 'ld', 'jmp', 'bne']) + ' ' + \
                ''.join(rng.choice(chars) for _ in range(rng.choice([1, 3, 10, 40])))
        else:
            j = rng.choice(fold.JUNK)
            s = j % rng.randrange(99) if '%d' in j else j
        low = s.lower()
        if any(w in low for w in ('if', 'else', 'endc', 'macro')):
            return '?' if rng.random() < .7 else rng.choice([
                ' exitm 5', ' endm 5', 'x endm', 'lab exitm', 'x macro foo', ' macro', ' Macro ; x', 'lab mac MACRO', 'lab mac 5', 'mac endm x',
                'mac macro 5', ' mac ,,,'])
        return s
    out = [' cpu %s' % rng.choice(['6502', '6801', 'Z80', '65C02']), '* = $200', 'def1 = 7', 'mac macro', ' db \\1', ' exitm', ' endm',
           'lab db 1']
    want = [1]
    for k in range(rng.choice([1, 3, 6])):
        body = [noise() for _ in range(rng.choice([1, 5, 30]))]
        for b in body:
            ctx.add('skipped_lines')
        q = rng.random()
        deep = rng.random() < .5
        if deep:
            i = rng.randrange(len(body) + 1)
            body[i:i] = [' if ' + rng.choice(['1', '((', 'undefd', ''])] + [noise()] + [' else'] * rng.randrange(2) + [' mac 5', ' endc']
        if q < .5:
            out += [' if 0'] + body + [' else', ' db %d' % (10 + k), ' endc']
        else:
            out += [' if 1', ' db %d' % (10 + k), ' else'] + body + [' endc']
        want.append(10 + k)
    out += ['after db lo(after), def1', ' mac 9']
    want += [len(want) & 255, 7, 9]
    r = ctx.run('\n'.join(out) + '\n', ('-l', '-x'))
    ctx.add('cases')
    ob = judge.run_ok(ctx, r, 'any')
    if ob is None:
        return
    if bytes(b for _, b in ob.stream()) != bytes(want):
        ctx.violation('any:bytes', 'expected %s, found %s' % (bytes(want).hex(), bytes(b for _, b in ob.stream()).hex()), r)
    elif r.o.nwarn:
        ctx.violation('any:warn', 'a warning from a skipped branch', r)
    else:
        names = sorted(x[3] for x in listing.symtab(r.o)[0])
        if names != sorted(['AFTER', 'DEF1', 'LAB', 'MAC']):
            ctx.violation('any:symbols', 'symbols %s' % names, r)
        ctx.seen('nontrivial', tuple(out))


# 5. the kinds of symbols
def kinds(ctx, item):
    rng = ctx.check.rng('kind', item)
    regs = {'Z80': ['A', 'B', 'C', 'D', 'E', 'H', 'L', 'BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'AF', 'I', 'R'], '6502': ['A', 'X', 'Y']}
    cpu = rng.choice(list(regs))
    out = [' cpu %s' % cpu, '* = $200', 'same macro', ' if \\1%s\\2' % rng.choice(['=', '==', ' = ']), ' db 1', ' else', ' db 0', ' endc',
           ' endm', 'diff macro', ' if \\1 %s \\2' % rng.choice(['!=', '<>']), ' db 1', ' else', ' db 0', ' endc', ' endm']
    want = []
    for a in regs[cpu]:
        for b in regs[cpu]:
            t = rng.choice(['same', 'diff'])
            out.append(' %s %s,%s' % (t, rng.choice([a, a.lower()]), rng.choice([b, b.lower()])))
            want.append(int((a == b) == (t == 'same')))
    bits = [(rng.choice([0, 5, 0x1234, 0xffff]), rng.randrange(8)) for _ in range(5)]
    bits += [(bits[0][0], (bits[0][1] + 1) % 8), (bits[1][0] ^ 256, bits[1][1])]
    for i, (v, n) in enumerate(bits):
        out.append('bit%d = %d{%d}' % (i, v, n))
    for i, a in enumerate(bits):
        for j, b in enumerate(bits):
            t = rng.choice(['same', 'diff'])
            out.append(' %s %s,%s' % (t, rng.choice(['%d{%d}' % a, 'bit%d' % i]), rng.choice(['%d{%d}' % b, 'BIT%d' % j])))
            want.append(int((a == b) == (t == 'same')))
    ctx.add('cases')
    if expect(ctx, '\n'.join(out) + '\n', bytes(want), 'kind'):
        ctx.seen('nontrivial', (cpu, item))


# 6. depth
def deep(ctx, item):
    d, style = item
    want = b''
    if style == 'then':
        t = ' if 1\n' * d + ' db 1\n' + ' endc\n' * d
        want = b'\1'
    elif style == 'else':
        t = (' if 0\n db 9\n else\n') * d + ' db 1\n' + ' endc\n' * d
        want = b'\1'
    elif style == 'skip':
        t = ' if 0\n' + ' if 1\n' * (d - 1) + ' db 1\n' + ' else\n db 2\n endc\n' * (d - 1) + ' else\n db 3\n endc\n'
        want = b'\3'
    else:
        t = ''.join(' if %d\n db %d\n' % (i % 7 != 6, i & 255) for i in range(d)) + ' else\n db 77\n endc\n' * d
        act = True
        w = []
        for i in range(d):
            act = act and i % 7 != 6
            if act:
                w.append(i & 255)
        # the innermost open IF comes first
        for i in reversed(range(d)):
            if all(j % 7 != 6 for j in range(i)) and i % 7 == 6:
                w.append(77)
        want = bytes(w)
    ctx.add('cases')
    if expect(ctx, '* = $200\n' + t, want, 'deep'):
        ctx.seen('nontrivial', item)


# 7. a condition needs values that are known already
def forwards(ctx, item):
    rng = ctx.check.rng('fw', item)
    nums = Nums(rng)
    lines = [' page 0,250', ' cpu %s' % rng.choice(['6502', '6801', 'Z80']), '* = $200', 'known = %d' % rng.randrange(300)]
    bad = []
    want = []
    for _ in range(rng.choice([1, 3, 8])):
        v = rng.choice([0, 1, 5, 255, 256, 0x7fff])
        op = rng.choice(list(OPS))
        sp = rng.choice(['', ' '])
        e = nums.fexpr(v)
        q = rng.random()
        other = rng.choice(['known', '%d' % rng.randrange(300), 'known+1', nums.fexpr(rng.randrange(300))])
        # << and >> beside a comparison are told apart by the outermost operator only
        if '<' in e + other or '>' in e + other:
            t = e
        elif q < .4:
            t = e + sp + op + sp + other
        elif q < .8:
            t = other + sp + op + sp + e
        else:
            t = e
        if '<<' in t or '>>' in t:
            t = nums.sym(v, nums.after)
        if rng.random() < .3:
            # never evaluated
            lines += [' if 0', ' if ' + t, ' db 1', ' else', ' db 2', ' endc', ' endc']
            continue
        lines.append(' if ' + t)
        bad.append(len(lines))
        b = rng.randrange(256)
        lines.append(' db %d' % b)
        want.append(b)
        if rng.random() < .5:
            lines += [' else', ' db %d' % (b ^ 255)]
            bad.append(len(lines) - 1)
            want.append(b ^ 255)
        lines.append(' endc')
        bad.append(len(lines))
    lines += nums.epilog()
    for n, v in nums.after.items():
        # now it is known
        if rng.random() < .5:
            b = rng.randrange(256)
            lines += [' if %s=%s' % (n, number(v, rng)), ' db %d' % b, ' else', ' db %d' % (b ^ 255), ' endc']
            want.append(b)
    lines += [' fail end']
    bad.append(len(lines))
    ctx.add('cases')
    r = ctx.run('\n'.join(lines) + '\n', ('-s',))
    if r.kind != 'exit' or r.code or r.o.fatal or r.o.ok():
        ctx.violation('forward:end', 'ended with %s' % r.describe(), r)
        return
    got = [n for n, _ in r.o.errors]
    if got != bad:
        ctx.violation('forward:errors', 'conditions with values that are not known yet: errors in lines %s, expected %s' % (got[:8], bad[:8]), r)
        return
    data = [row.data[0] for row in listing.rows(r.o) if row.data and row.num]
    if data != want:
        ctx.violation('forward:effect', 'lines with effect: expected %s, found %s' % (want[:9], data[:9]), r)
        return
    ctx.seen('nontrivial', tuple(lines))


def folded(ctx, i):
    rng = ctx.check.rng('fk', i)
    kinds = rng.choice([('if',), ('if',), ('if', 'inc'), ('if', 'mac'), ('if', 'inc', 'mac')])
    foldcheck.random_fold(ctx, i, kinds, rng.choice([0, 0, 0, .08]), density=rng.choice([.15, .3, .45]))


def go():
    c = Check('C09')
    q = c.pick(3, 12)
    c.parallel(compare, [(a, 0) for a in VALUES] + [(a, s) for a in VALUES for s in range(1, 8 * q)])
    c.parallel(interp, range(5000 * q))
    import itertools
    c.parallel(lambda ctx, t: judge_pairs(ctx, list(t)),
               [t for n in range(1, c.pick(6, 8)) for t in itertools.product('TFECb', repeat=n) if 'b' in t or n < 4])
    c.parallel(pairing, range(3000 * q))
    c.parallel(anything, range(3000 * q))
    c.parallel(kinds, range(30 * q))
    c.parallel(deep, [(d, s) for d in (1, 2, 3, 5, 10, 31, 32, 33, 64, 100, 255, 256, 257, 500, 999, 1000) for s in ('then', 'else', 'skip', 'mix')])
    c.parallel(forwards, range(1500 * q))
    c.parallel(folded, range(6000 * q))
    c.finish('all comparisons of boundary values, all token sequences of IF/ELSE/ENDC up to length 5 (thorough: 7), random '
             'conditional programs against an interpreter, random text in skipped branches, flat programs folded into conditionals; '
             'non-trivial: distinct programs with a decided conditional', need=10000)


main(go)
