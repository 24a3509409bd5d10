#!/usr/bin/env python3
"""C14: Z80 instructions encode exactly or are refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import batch  # noqa: E402
import objfile  # noqa: E402
import encz80 as z  # noqa: E402
from numtext import Nums  # noqa: E402

# operand forms; N8/N16/D stand for values chosen per line
FORMS = [('r', x) for x in 'ABCDEHL'] + [('rr', x) for x in ('BC', 'DE', 'HL', 'SP', 'AF', 'IX', 'IY')] + \
        [('x', x) for x in ('I', 'R', 'F', "AF'")] + \
        [('m', x) for x in ('HL', 'BC', 'DE', 'SP', 'C', 'IX', 'IY')] + \
        [('xd', 'IX'), ('xd', 'IY'), ('n', None), ('mn', None)]
CONDS = [('c', x) for x in ('NZ', 'Z', 'NC', 'PO', 'PE', 'P', 'M')]
# Spellings the assembler accepts beyond Zilog's, with an unambiguous meaning; they may be
# assembled to that meaning or refused
ALT = {
    'EX': {(('rr', 'HL'), ('rr', 'DE')): b'\xeb', (('x', "AF'"), ('rr', 'AF')): b'\x08'},
}


def alt(mn, ops):
    if mn == 'EX':
        t = ALT['EX'].get(tuple(ops))
        if t:
            return t
        if len(ops) == 2 and ops[1] == ('m', 'SP'):
            return z.encode('EX', [ops[1], ops[0]])
    if mn in ('SUB', 'AND', 'XOR', 'OR', 'CP') and len(ops) == 2 and ops[0] == ('r', 'A'):
        return z.encode(mn, ops[1:])
    if mn == 'RST' and len(ops) == 1 and ops[0][0] == 'n' and 0 <= ops[0][1] < 8:
        return bytes([0xc7 + 8 * ops[0][1]])
    # a number in redundant parentheses where no memory operand exists
    if any(o[0] == 'mn' for o in ops):
        bare = [('n', o[1]) if o[0] == 'mn' else o for o in ops]
        t = z.encode(mn, bare)
        return t if t is not None else alt(mn, bare)
    return None


FAR = [0x10000, 0x10001, 0x10008, 0x20038, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff8, 0xffffffff]


def values(mn, pos, rng):
    if mn in z.BITS and pos == 0:
        return rng.choice([0, 1, 2, 3, 4, 5, 6, 7] * 2 + [8, 9, 255, 256, 0x107, 0xffff] + FAR)
    if mn == 'IM':
        return rng.choice([0, 1, 2] * 3 + [3, 4, 0x100, 0x101] + FAR)
    if mn == 'RST':
        return rng.choice(list(range(0, 72, 8)) * 2 + [1, 7, 9, 12, 63, 64, 255, 256, 0x108, 0xffff] + FAR)
    return rng.choice([0, 1, 0x7f, 0x80, 0xfe, 0xff, rng.randrange(256)])


def wide(mn, ops):
    """does this combination have a 16 bit number?"""
    if mn in ('JP', 'CALL'):
        return True
    if mn == 'LD' and len(ops) == 2:
        if ops[0][0] == 'mn' or ops[1][0] == 'mn':
            return True
        return ops[0][0] == 'rr'
    return False


def text(op, nums, rng):
    k, v = op
    cs = rng.choice([str.lower, str.upper, str.lower])
    sp = rng.choice(['', '', '', ' '])
    if k in ('r', 'rr', 'x', 'c'):
        return cs(v)
    if k == 'm':
        return '(' + sp + cs(v) + sp + ')'
    if k == 'xd':
        d = v[1]
        if rng.random() < .15:
            # the sign is in the value
            sg = rng.choice('+-')
            u = (d if sg == '+' else -d) & 0xffffffff
            return '(%s%s%s%s%s)' % (sp, cs(v[0]), sg, sp, rng.choice([nums.sym(u, nums.before), nums.plain(u)]))
        if d < 0:
            return '(%s%s%s-%s%s%s)' % (sp, cs(v[0]), sp, sp, nums.plain(-d), sp)
        return '(%s%s%s+%s%s%s)' % (sp, cs(v[0]), sp, sp, nums.expr(d), sp)
    if k == 'rel':
        return '*%+d' % (v + 2)
    if k == 'n':
        return nums.expr(v)
    return '(%s%s%s)' % (sp, nums.expr(v), sp)


def mnline(mn, ops, nums, rng):
    ts = [text(o, nums, rng) for o in ops]
    s = (' , ' if rng.random() < .2 else ',').join(ts)    # no blank inside a ','
    m = rng.choice([mn, mn.lower(), mn.lower(), mn.capitalize()])
    return (m + rng.choice([' ', '  ', '\t']) + s).rstrip()


def combos():
    res = []
    for mn in z.MNEMONICS:
        res.append((mn, []))
        first = FORMS + (CONDS if mn in ('JP', 'CALL', 'RET') else [])
        for a in first:
            res.append((mn, [a]))
            for b in FORMS:
                res.append((mn, [a, b]))
    for mn in ('JR', 'DJNZ'):
        res += [(mn, [('rel', None)]), (mn, [])]
        for a in [f for f in FORMS if f[0] not in ('n', 'mn')] + CONDS:
            res += [(mn, [a]), (mn, [a, ('rel', None)])] * 4
    return res


def case(ctx, item):
    part, k = item
    rng = ctx.check.rng('case', k)
    nums = Nums(rng)
    good, bad, cpdr = [], [], []
    for mn, ops in part:
        inst = []
        for i, (kind, v) in enumerate(ops):
            if kind in ('n', 'mn'):
                v = rng.choice([0, 1, 255, 256, 0x1234, 0xffff, 0x8000, rng.randrange(65536)]) if wide(mn, ops) \
                    else values(mn, i, rng)
            elif kind == 'rel':
                v = rng.choice([0, 1, -1, 127, -128, rng.randrange(-128, 128)])
            elif kind == 'xd':
                v = (v, rng.choice([0, 1, -1, 127, -128, rng.randrange(-128, 128)]))
            inst.append((kind, v))
        want = z.encode(mn, inst)
        key = mn + ' ' + ','.join('%s:%s' % (o[0], o[1]) for o in ops)
        key = key.strip().replace(' ', '_')
        if want is None and alt(mn, inst) is not None:
            continue          # an accepted extra spelling: checked on its own below
        l = batch.Line(mnline(mn, inst, nums, rng), want, key)
        if want is not None:
            ctx.seen('valid_forms', key)
            good.append(l) if mn != 'CPDR' else cpdr.append(l)
        else:
            ctx.seen('refused_forms', key)
            bad.append(l)
        ctx.seen('nontrivial', key)
    rng.shuffle(good)
    rng.shuffle(bad)
    pro, epi = nums.prolog(), nums.epilog()
    ctx.sample('z80: ' + ' | '.join(l.text for l in (good[:3] + bad[:2])))
    org = rng.choice([0, 0x100, 0x8000, 0x4321])
    if good:
        batch.expect_ok(ctx, 'Z80', good, pro, epi, org)
    if bad:
        batch.expect_refused(ctx, 'Z80', bad, pro, epi, org)
    mix = good + bad
    rng.shuffle(mix)
    batch.expect_listed(ctx, 'Z80', mix[:400], pro, epi, org)
    for l in cpdr:
        # apart, because of the known finding
        t, _ = batch.src('Z80', [l])
        r = ctx.run(t)
        ctx.add('cases')
        hx = ''.join('%02x' % b for _, d in objfile.parse(r.obj).runs for b in d) if r.obj else 'nothing'
        if hx != 'edb9' or not r.o.ok() or r.o.warnings:
            ctx.violation('cpdr-emits-' + hx, 'CPDR emits %s, expected edb9' % hx, r)


def altcase(ctx, item):
    """extra spellings: their one sensible meaning, or refused"""
    mn, ops, k = item
    rng = ctx.check.rng('alt', k)
    nums = Nums(rng)
    inst = []
    for i, (kind, v) in enumerate(ops):
        if kind in ('n', 'mn'):
            v = rng.randrange(65536) if wide(mn, ops) else values(mn, i, rng)
        elif kind == 'xd':
            v = (v, rng.randrange(-128, 128))
        inst.append((kind, v))
    want = alt(mn, inst)
    if z.encode(mn, inst) is not None or want is None:
        return
    l = batch.Line(mnline(mn, inst, nums, rng), want)
    text_, first = batch.src('Z80', [l], nums.prolog(), nums.epilog())
    r = ctx.run(text_, ('-l', '-s'))
    ctx.add('cases')
    if not r.o.errors:
        batch.expect_ok(ctx, 'Z80', [l], nums.prolog(), nums.epilog())


def sweep(ctx, item):
    """one valid form with every value of its numbers"""
    mn, ops, k = item
    rng = ctx.check.rng('sweep', k)
    nums = Nums(rng, forward=True)
    lines = []
    w16 = [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0xffff] + [1 << i for i in range(16)] + \
        [rng.randrange(65536) for _ in range(ctx.check.pick(150, 600))]
    for j in range(256 if not wide(mn, ops) else len(w16)):
        inst, txt = [], []
        for i, (kind, v) in enumerate(ops):
            if kind in ('n', 'mn'):
                v = w16[j] if wide(mn, ops) else \
                    (j & 7 if mn in z.BITS else (j & 7) * 8 if mn == 'RST' else j % 3 if mn == 'IM' else
                     j if all(o[0] != 'xd' for o in ops) else rng.randrange(256))
            elif kind == 'xd':
                v = (v, j - 128 if not wide(mn, ops) else rng.randrange(-128, 128))
            inst.append((kind, v))
            if kind in ('n', 'mn') and rng.random() < .3:
                e = nums.fexpr(v)
                txt.append(e if kind == 'n' else '(%s)' % e)
            else:
                txt.append(text((kind, v), nums, rng))
        want = z.encode(mn, inst)
        m = rng.choice([mn.lower(), mn])
        l = batch.Line((m + ' ' + ','.join(txt)).rstrip(), want, mn)
        lines.append(l)
        ctx.seen('encodings', want)
    ctx.add('swept_lines', len(lines))
    batch.expect_ok(ctx, 'Z80', lines, nums.prolog(), nums.epilog(), rng.choice([0, 0x80, 0x1000, 0xfc00 - 0x400]))


def selectors(ctx, item):
    """RST, IM and bit numbers: every value up to 600 and around the powers of two"""
    mn, ops = item
    rng = ctx.check.rng('sel', item)
    nums = Nums(rng)
    vals = list(range(600)) + [(1 << i) + j for i in range(10, 33) for j in (-8, -1, 0, 1, 2, 3, 7, 8, 0x38) if (1 << i) + j < 1 << 32]
    good, bad = [], []
    for v in vals:
        inst = [('n', v)] + ops
        want = z.encode(mn, inst)
        if want is None and alt(mn, inst) is not None:
            continue
        l = batch.Line('%s %s' % (mn.lower(), ','.join([nums.expr(v)] + [text(o, nums, rng) for o in ops])), want, '%s_%X' % (mn, v))
        (bad if want is None else good).append(l)
        ctx.seen('selectors', (mn, v))
    pro, epi = nums.prolog(), nums.epilog()
    batch.expect_ok(ctx, 'Z80', good, pro, epi)
    batch.expect_refused(ctx, 'Z80', bad, pro, epi)


EXTRA = ['A', 'B', 'H', 'HL', 'SP', '5', '$1234', '(HL)', '(5)', 'NZ', 'C', 'IX', '(IX+5)', '(IY-2)', "'q'", 'X', '#5']
JUNK = ['(%s', '%s)', '((%s)', '%s,', ',%s', '%s%%', '%s+', '%s*', '%s/', '%s(', '%s()', '()%s', '%s a', '%s 1', '%s hl', '%s.', '=%s',
        '?%s', '%s?', '#%s', '<%s', '%s<', '+%s+', '*%s*']


def malformed(ctx, item):
    """valid instructions with an operand too many, or with something left over at an operand"""
    part, k = item
    rng = ctx.check.rng('mal', k)
    nums = Nums(rng)
    bad = []
    for mn, ops in part:
        txt = []
        for i, (kind, v) in enumerate(ops):
            if kind in ('n', 'mn'):
                v = rng.randrange(65536) if wide(mn, ops) else values(mn, i, rng)
            elif kind == 'xd':
                v = (v, rng.randrange(-128, 128))
            elif kind == 'rel':
                v = 0
            txt.append(text((kind, v), nums, rng))
        for _ in range(3):
            t = list(txt)
            if not t or rng.random() < .6:
                if len(t) == 1:
                    e = rng.choice([rng.sample(EXTRA, 2), rng.sample(EXTRA, 2), ['A', 'A'], ['A', rng.choice(EXTRA)], t + t])
                    j = rng.randrange(3)
                    t = e[:j] + t + e[j:] if j < 2 else t + e
                    if j == 2 and rng.random() < .5:
                        t = [rng.choice(EXTRA)] + t
                elif len(t) == 2:
                    t.insert(rng.randrange(3), rng.choice(EXTRA + t + t))
                else:
                    t = [rng.choice(EXTRA) for _ in range(rng.choice([1, 2, 3]))]
                    if mn in ('RET',) and len(t) == 1 and t[0] in ('NZ', 'C'):
                        continue
                what = 'operands%d' % len(t)
            else:
                j = rng.randrange(len(t))
                f = rng.choice(JUNK)
                t[j] = f % t[j]
                what = f.replace('%s', '_')
            t = rng.choice([',', ',', ', ', ' , ']).join(x if rng.random() < .5 else x.lower() for x in t)
            m = rng.choice([mn, mn.lower()])
            bad.append(batch.Line(m + ' ' + t, None, '%s_%s' % (mn, what)))
            ctx.seen('malformed', (mn, what, len(txt)))
    batch.expect_refused(ctx, 'Z80', bad, nums.prolog(), nums.epilog())


def go():
    c = Check('C14')
    allc = combos()
    rounds = c.pick(15, 150)
    items = []
    for rd in range(rounds):
        rng = c.rng('order', rd)
        order = list(allc)
        rng.shuffle(order)
        # valid forms are few among all combinations: repeat them with other values
        valid = [x for x in allc if z.encode(x[0], [(k, ('IX', 1) if k == 'xd' and v == 'IX' else ('IY', 1) if k == 'xd'
                 else 0 if k in ('n', 'mn', 'rel') else v) for k, v in x[1]]) is not None]
        order += valid * 3
        for i in range(0, len(order), 500):
            items.append((order[i:i + 500], 'r%d.%d' % (rd, i)))
    c.parallel(case, items, chunk=1)
    sw = [(mn, ops, i) for i, (mn, ops) in enumerate(valid) if mn != 'CPDR' and any(o[0] in ('n', 'mn', 'xd') for o in ops)]
    c.parallel(sweep, sw, chunk=4)
    mal = []
    for rd in range(c.pick(12, 120)):
        rng = c.rng('malorder', rd)
        order = list(valid)
        rng.shuffle(order)
        mal += [(order[i:i + 250], '%d.%d' % (rd, i)) for i in range(0, len(order), 250)]
    c.parallel(malformed, mal, chunk=1)
    alts = [(mn, ops, i) for i, (mn, ops) in enumerate(allc)
            if mn in ('EX', 'RST', 'SUB', 'AND', 'XOR', 'OR', 'CP') or any(o[0] == 'mn' for o in ops)]
    c.parallel(altcase, alts)
    c.parallel(selectors, [('RST', []), ('IM', [])] + [(mn, [o]) for mn in ('BIT', 'SET', 'RES') for o in
                                                       (('r', 'A'), ('m', 'HL'), ('xd', ('IX', 5)), ('xd', ('IY', -3)))], chunk=1)
    c.finish('every Z80 mnemonic with every pair of operand forms, values and spellings at random; distinct '
             'mnemonic/operand-form combinations are counted', need=1000)


main(go)
