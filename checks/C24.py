#!/usr/bin/env python3
"""C24: what does not fit its field is announced, and what fits is not.

Monitor: every line of a program is one experiment.  From the listing it reads, for each
line, whether it was refused, warned, and which bytes it emitted.
  overflow -> refused, or warned and the low-order part emitted
  fits     -> not announced (and the exact bytes emitted)
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import cpucheck  # noqa: E402
import enc6502 as m65  # noqa: E402
import enc6800 as m68  # noqa: E402
import encz80 as z  # noqa: E402
import listing  # noqa: E402
from numtext import Nums  # noqa: E402

OVER8 = [256, 257, 0x17f, 0x180, 0x1ff, 0x200, 0x7fff, 0x8000, 0xff00, 0xff7f, 0xff80, 0xfffe, 0xffff] + \
    [1 << i for i in range(8, 16)]
FIT8 = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff]
OVER16 = [0x10000, 0x10001, 0x1ffff, 0x7fffffff, 0x80000000, 0xffff0000, 0xffffffff] + [1 << i for i in range(16, 32)]
CPUS65 = ('6500', '6502', '65C02')
CPUS68 = ('6800', '6801', '6803')


class Exp:
    __slots__ = ('text', 'over', 'want', 'key')

    def __init__(self, text, over, want, key):
        self.text, self.over, self.want, self.key = text, over, want, key


def play(ctx, cpu, exps, nums, rng, opts=()):
    pro, epi = nums.prolog(), nums.epilog()
    out = [' page 0,250', ' cpu %s' % cpu, '* = $%X' % rng.choice([0, 0x90, 0x200, 0x4321, 0x8000])] + pro
    first = len(out) + 1
    out += [' ' + e.text for e in exps] + epi
    r = ctx.run('\n'.join(out) + '\n', opts)
    ctx.add('cases', len(exps))
    if r.kind != 'exit' or r.code != 0:
        ctx.violation('run', 'ended with %s' % r.describe(), r)
        return
    o = r.o
    errs = {}
    warns = {}
    for n, m in o.errors:
        errs.setdefault(n, []).append(m)
    for n, m in o.warnings:
        warns.setdefault(n, []).append(m)
    byline = {}
    pend = b''
    for row in listing.rows(o):
        if row.kind == 'code':
            pend += row.data or b''
        elif row.kind == 'line':
            byline[row.num] = (pend + (row.data or b''), row.dots)
            pend = b''
    for n in list(errs) + list(warns):
        if not first <= n < first + len(exps):
            ctx.violation('other', 'line %d: unexpected announcement' % n, r)
            return
    nw = 0
    for i, e in enumerate(exps):
        n = first + i
        got, dots = byline.get(n, (None, False))
        nw += len(warns.get(n, ()))
        if e.over:
            if n in errs:
                ctx.add('over_refused')
                continue
            if n not in warns:
                ctx.violation('silent:%s:%s' % (cpu, e.key), '%s: %r does not fit, but is assembled without a word to %s' % (
                    cpu, e.text, got.hex() if got is not None else None), r)
                return
            ctx.add('over_warned')
        else:
            if n in errs or n in warns:
                ctx.violation('announced:%s:%s' % (cpu, e.key), '%s: %r fits, but is announced: %s' % (
                    cpu, e.text, errs.get(n) or warns.get(n)), r)
                return
            ctx.add('fitting')
        if e.want is not None and (got != e.want and not (len(e.want) > 20 and got and e.want.startswith(got))):
            ctx.violation('bytes:%s:%s' % (cpu, e.key), '%s: %r emits %s, expected %s' % (
                cpu, e.text, got.hex() if got is not None else None, e.want.hex()), r)
            return
    if o.nwarn != sum(map(len, warns.values())) or o.nerr != sum(map(len, errs.values())):
        ctx.violation('count', 'the summary counts %s errors and %s warnings' % (o.nerr, o.nwarn), r)
    ctx.sample('%s: ' % cpu + ' | '.join(e.text for e in exps[:5]))


def spell(nums, rng, v, forward=True):
    """(text, is it forward?)"""
    v &= 0xffffffff
    q = rng.random()
    if forward and q < .25:
        return nums.fexpr(v), True
    if v >= 0xffff0000 and rng.random() < .5:
        return '-%s' % nums.plain((1 << 32) - v), False
    return nums.expr(v), False


def data_case(ctx, item):
    cpu, k = item
    rng = ctx.check.rng('data', cpu, k)
    nums = Nums(rng)
    exps = []
    for _ in range(150):
        d = rng.choice(['db', 'dw', 'ddb', 'dl', 'DB', 'DW', 'DDB', 'DL', 'ds'])
        if d == 'ds':       # the value that fills the space
            over = rng.random() < .5
            v = rng.choice(OVER8 + OVER16 + [-1, -128, 0x180, 0x2ff, rng.randrange(256, 1 << 32)]) & 0xffffffff if over else rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
            n = rng.choice([0, 1, 2, 3, 20, 21, 100])
            exps.append(Exp('%s %s,%s' % (rng.choice(['ds', 'DS']), nums.expr(n), spell(nums, rng, v)[0]), over, bytes([v & 255]) * n, 'ds'))
            ctx.seen('nontrivial', (cpu, 'ds', over, n))
            continue
        size, little = {'db': (1, 1), 'dw': (2, 1), 'ddb': (2, 0), 'dl': (4, 1)}[d.lower()]
        cnt = rng.choice([1, 1, 1, 2, 3, 4, 8, 20, 40, 105])
        over = rng.random() < .5 and size < 4
        hot = rng.choice([rng.randrange(cnt), cnt - 1]) if over else -1
        dense = cnt > 20 or rng.random() < .3      # short numerals, so that the line takes the list
        vs = []
        for i in range(cnt):
            lim = 1 << 8 * size
            if dense and i != hot:
                v = rng.randrange(10)
            elif i == hot or over and rng.random() < .1:
                v = rng.choice(OVER16 if size == 2 else OVER8 + OVER16 + [-1, -2, -128, -256]) if rng.random() < .7 \
                    else rng.randrange(lim, 1 << 32)
            else:
                v = rng.choice([0, 1, lim - 1, lim - 2, lim >> 1, (lim >> 1) - 1, rng.randrange(lim), rng.randrange(lim)])
            vs.append(v & 0xffffffff)
        if size == 4:
            want = None        # C16 decides the order of DL; here: never announced
        else:
            want = b''.join((v & ((1 << 8 * size) - 1)).to_bytes(size, None or 'little') for v in vs)
        key = d.lower() + (':%d' % cnt if cnt > 1 else '')
        if dense:
            txt = '%s %s' % (d, ','.join(spell(nums, rng, v)[0] if i == hot else str(v) for i, v in enumerate(vs)))
        else:
            txt = '%s %s' % (d, rng.choice([',', ', ', ' , ']).join(spell(nums, rng, v)[0] for v in vs))
        if size == 2:
            want = b''.join((v & 0xffff).to_bytes(2, order(cpu, d.lower())) for v in vs)
        if len(txt) > 230:
            continue
        exps.append(Exp(txt, over, want, key))
        ctx.seen('nontrivial', (cpu, key, over, 'hot%d' % (hot if hot < 5 else min(hot // 10 * 10, 100))))
    play(ctx, cpu, exps, nums, rng)


def order(cpu, d):
    big = cpu in CPUS68
    if d == 'ddb':
        big = not big
    return 'big' if big else 'little'


def short_only(fam, encode, cpu, mn, shape):
    """the instruction has room for 8 bits only"""
    a = encode(cpu, mn, shape, 5, False)
    if a is None or a == 'any' or len(a) != 2:
        return False
    b = encode(cpu, mn, shape, 0x1234, False)
    return b is None or len(b) == 2


def fields(cpu):
    """(mnemonic, shape, format, encode) with an 8 bit only field"""
    res = []
    if cpu in CPUS65:
        for mn in m65.mnemonics(cpu):
            for s, f in m65.SHAPES.items():
                if s in ('none', 'A') or any(m == 'rel' for m in m65.OPS[mn]):
                    continue
                if short_only(None, m65.encode, cpu, mn, s):
                    res.append((mn, s, f, m65.encode))
    else:
        for mn in m68.ops(cpu):
            if 'rel' in m68.ops(cpu)[mn]:
                continue
            for s, f in m68.SHAPES.items():
                if s in ('none', ',X'):
                    continue
                if short_only(None, m68.encode, cpu, mn, s):
                    res.append((mn, s, f, m68.encode))
    return res


def cpu_case(ctx, item):
    cpu, k = item
    rng = ctx.check.rng('cpu', cpu, k)
    nums = Nums(rng)
    exps = []
    fl = fields(cpu)
    ctx.seen('fields', (cpu, len(fl)))
    for mn, s, f, enc in rng.sample(fl, min(len(fl), 120)):
        over = rng.random() < .6
        v = (rng.choice(OVER8 + [rng.randrange(256, 65536)] * 8)) if over else \
            rng.choice(FIT8 + [rng.randrange(256)] * 4)
        t, fwd = spell(nums, rng, v)
        base = enc(cpu, mn, s, 5, False)
        if fwd and not over and enc(cpu, mn, s, v, True) in ('any', None):
            continue              # a short-only mode with a forward value: C12 and C13 decide
        want = base[:1] + bytes([v & 255])
        exps.append(Exp(cpucheck.line(rng, mn, f, t), over, want, '%s_%s%s' % (mn, s, '_fwd' if fwd else '')))
        ctx.seen('nontrivial', (cpu, mn, s, over, fwd))
    play(ctx, cpu, exps, nums, rng)


def zfields():
    """(mnemonic, operands with n, mn or xd as the hole, which hole)"""
    import itertools
    A = ('r', 'A')
    n, mn_ = ('n', 0), ('mn', 0)
    xs = [('xd', ('IX', 0)), ('xd', ('IY', 0))]
    res = []
    for m in z.ALU:
        two = m in ('ADD', 'ADC', 'SBC')
        for o in [n] + xs:
            res.append((m, [A, o] if two else [o]))
    for m in list(z.ROT) + ['INC', 'DEC']:
        res += [(m, [x]) for x in xs]
    for m in z.BITS:
        res += [(m, [('n', b), x]) for b in range(8) for x in xs]
    for r in z.R8:
        res.append(('LD', [('r', r), n]))
        res += [('LD', [('r', r), x]) for x in xs] + [('LD', [x, ('r', r)]) for x in xs]
    res += [('LD', [('m', 'HL'), n])] + [('LD', [x, n]) for x in xs] + [('LD', [('m', i), n]) for i in ('IX', 'IY')]
    res += [('IN', [A, mn_]), ('OUT', [mn_, A])]
    holes = []
    for m, ops in res:
        for i, (kk, v) in enumerate(ops):
            if kk == 'xd' or kk == 'mn' or kk == 'n' and m not in z.BITS:
                holes.append((m, ops, i))
    return holes


def z80_case(ctx, item):
    k, = item
    rng = ctx.check.rng('z80', k)
    nums = Nums(rng)
    exps = []
    holes = zfields()
    for mn, ops, hole in rng.sample(holes, 110):
        over = rng.random() < .6
        txt, inst = [], []
        fwd = False
        for i, (kk, v) in enumerate(ops):
            if kk == 'xd':
                if i != hole:
                    d = rng.choice([0, 1, 127, -1, -128, rng.randrange(-128, 128)])
                elif over:
                    d = rng.choice([128, 129, 200, 255, 256, 0x17f, 0x180, 1000, 0x7fff, 0x8000, 0xff7f,
                                    rng.randrange(128, 0xff80)] * 2 +
                                   [-129, -130, -200, -255, -256, -257, -1000, -0x7fff, rng.randrange(-0x8000, -128)])
                else:
                    d = rng.choice([0, 1, 126, 127, -1, -2, -127, -128, rng.randrange(-128, 128)])
                inst.append((kk, (v[0], d)))
                e, fwd = spell(nums, rng, abs(d))
                if d < 0 and ('+' in e or '-' in e):
                    e, fwd = rng.choice([nums.plain(-d), nums.sym(-d, nums.before)]), False
                txt.append('(%s%s%s)' % (rng.choice([v[0], v[0].lower()]), '-' if d < 0 else '+', e))
            elif kk in ('n', 'mn'):
                if i != hole:
                    w = v if mn in z.BITS else rng.randrange(256)
                    e = nums.expr(w)
                else:
                    w = rng.choice(OVER8 + [rng.randrange(256, 65536)] * 6) if over else rng.choice(FIT8 + [rng.randrange(256)] * 3)
                    e, fwd = spell(nums, rng, w)
                inst.append((kk, w))
                txt.append(e if kk == 'n' else '(%s)' % e)
            elif kk == 'm':
                inst.append((kk, v))
                txt.append('(%s)' % v.lower())
            else:
                inst.append((kk, v))
                txt.append(rng.choice([v, v.lower()]))
        want = z.encode(mn, inst)
        key = '%s_%s_%d' % (mn, ','.join('%s' % o[0] for o in ops), hole)
        exps.append(Exp('%s %s' % (rng.choice([mn, mn.lower()]), rng.choice([',', ', ']).join(txt)), over, want, key))
        ctx.seen('nontrivial', (key, str(ops), over, fwd))
    play(ctx, 'Z80', exps, nums, rng)


def edge(ctx, item):
    """every value around the limits, for one field"""
    cpu, mn, s, f, enc, k = item
    rng = ctx.check.rng('edge', cpu, mn, s, k)
    nums = Nums(rng)
    if cpu in CPUS65:
        enc = m65.encode
    else:
        enc = m68.encode
    exps = []
    base = enc(cpu, mn, s, 5, False)
    for v in list(range(0, 256, 5)) + list(range(250, 264)) + [x * 256 + y for x in range(1, 256, 17) for y in (0, 127, 128, 255)]:
        exps.append(Exp(cpucheck.line(rng, mn, f, nums.plain(v)), v > 255, base[:1] + bytes([v & 255]), '%s_%s' % (mn, s)))
    play(ctx, cpu, exps, nums, rng)


def go():
    c = Check('C24')
    n = c.pick(120, 1500)
    items = [(cpu, k) for k in range(n) for cpu in CPUS65[:2] + CPUS68[:1] + ('65C02', 'Z80')]
    c.parallel(data_case, items)
    items = [(cpu, k) for k in range(c.pick(60, 800)) for cpu in CPUS65 + CPUS68]
    c.parallel(cpu_case, items)
    c.parallel(z80_case, [(k,) for k in range(c.pick(500, 6000))])
    items = [(cpu, mn, s, f, None, 0) for cpu in CPUS65 + CPUS68 for mn, s, f, e in fields(cpu)]
    c.parallel(edge, items)
    c.finish('every 8 bit only field of every instruction and processor, DB/DW/DDB/DL lists, with values on both sides of '
             'the limit, as constants, symbols and forward references', need=1000)


main(go)
