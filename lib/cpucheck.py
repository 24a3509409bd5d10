"""The common part of C12 and C13: mnemonic x operand shape x value x processor."""
import batch
from numtext import Nums


class Family:
    """cpus, mnemonics(), shapes {name: format}, encode(cpu, mn, shape, value, forward),
    rel(cpu) -> {mnemonic: opcode or None}, has(cpu, mn)"""


def spell(rng, fmt, e):
    """the operand text with blanks and letter case at random"""
    out = ''
    for ch in fmt:
        if ch == ',':
            out += rng.choice([',', ',', ', ', ' ,', ' , ', '\t,\t'])
        elif ch in 'AXY':
            out += rng.choice([ch, ch.lower()])
        elif ch == '(':
            out += rng.choice(['(', '(', '( '])
        elif ch == ')':
            out += rng.choice([')', ')', ' )'])
        elif ch == '#':
            out += rng.choice(['#', '#', '# '])
        else:
            out += ch
    return out.replace('%s', e)


def line(rng, mn, fmt, e):
    m = rng.choice([mn, mn.lower(), mn.lower(), mn.capitalize()])
    return (m + rng.choice([' ', ' ', '  ', '\t', '   \t']) + spell(rng, fmt, e)).rstrip()


VALS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1ff, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x0200, 0x1000]


def mixed(fam):
    def case(ctx, item):
        cpu, part, k = item
        rng = ctx.check.rng('mix', cpu, k)
        nums = Nums(rng)
        good, bad = [], []
        for mn, shape in part:
            fwd = rng.random() < .25
            v = rng.choice(VALS + [rng.randrange(256)] * 6 + [rng.randrange(65536)] * 3)
            if rng.random() < .05:
                v = -rng.choice([1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x7fff, rng.randrange(1, 0x8001)])
                fwd = fwd and v % 2 > 0
            key = '%s_%s' % (mn, shape)
            rel = fam.rel(cpu)
            if mn in rel:
                if shape != 'e':
                    t, want = line(rng, mn, fam.shapes[shape], '$10'), None
                    if shape.startswith('('):
                        continue       # redundant parentheses around a branch target
                else:
                    d = rng.randrange(-128, 128)
                    t = line(rng, mn, '%s', '*%+d' % (d + 2))
                    want = bytes([rel[mn], d & 0xff])
            else:
                want = fam.encode(cpu, mn, shape, v, fwd)
                if want == 'any':
                    continue
                e = nums.fexpr(v) if fwd else nums.expr(v)
                t = line(rng, mn, fam.shapes[shape], e)
            l = batch.Line(t, want, key)
            ctx.seen('nontrivial', (cpu, key, want is None))
            if want is not None:
                ctx.seen('opcodes', (cpu, want[0]))
            (bad if want is None else good).append(l)
        pro, epi = nums.prolog(), nums.epilog()
        org = rng.choice([0, 0x80, 0x200, 0x8000, 0x1234])
        ctx.sample('%s: ' % cpu + ' | '.join(l.text for l in good[:3] + bad[:2]))
        if good:
            batch.expect_ok(ctx, cpu, good, pro, epi, org)
        if bad:
            batch.expect_refused(ctx, cpu, bad, pro, epi, org)
        both = good + bad
        rng.shuffle(both)
        batch.expect_listed(ctx, cpu, both, pro, epi, org)
    return case


def sweep(fam):
    """one valid mnemonic/shape with every 8 bit value and many 16 bit ones"""
    def case(ctx, item):
        cpu, mn, shape, k = item
        rng = ctx.check.rng('sweep', cpu, mn, shape, k)
        nums = Nums(rng, forward=True)
        lines = []
        vals = list(range(256)) + [1 << i for i in range(8, 16)] + [0xffff, 0xff00, 0x1ff] + \
            [rng.randrange(65536) for _ in range(ctx.check.pick(40, 400))]
        bad = []
        for v in vals:
            fwd = rng.random() < .2
            want = fam.encode(cpu, mn, shape, v, fwd)
            if want == 'any':
                fwd = False
                want = fam.encode(cpu, mn, shape, v, False)
            l = batch.Line(line(rng, mn, fam.shapes[shape], nums.fexpr(v) if fwd else nums.expr(v)), want,
                           '%s_%s' % (mn, shape))
            if want is None:
                bad.append(l)
            else:
                lines.append(l)
                ctx.seen('encodings', (cpu, want))
        ctx.add('swept_lines', len(lines))
        org = rng.choice([0, 0x80, 0x200, 0x8000])
        if lines:
            batch.expect_ok(ctx, cpu, lines, nums.prolog(), nums.epilog(), org)
        if bad:
            batch.expect_refused(ctx, cpu, bad, nums.prolog(), nums.epilog(), org)
    return case


def maybe(fam):
    """a short-only mode with a forward reference: encoded right or refused"""
    def case(ctx, item):
        cpu, mn, shape, k = item
        rng = ctx.check.rng('maybe', cpu, mn, shape, k)
        nums = Nums(rng)
        v = rng.randrange(256)
        if fam.encode(cpu, mn, shape, v, True) != 'any':
            return
        want = fam.encode(cpu, mn, shape, v, False)
        l = batch.Line(line(rng, mn, fam.shapes[shape], nums.fexpr(v)), want, '%s_%s' % (mn, shape))
        text, _ = batch.src(cpu, [l], nums.prolog(), nums.epilog())
        r = ctx.run(text)
        ctx.add('cases')
        if not r.o.errors:
            batch.expect_ok(ctx, cpu, [l], nums.prolog(), nums.epilog())
    return case


EXTRA = ['A', 'B', 'X', 'Y', '5', '$1234', '(5)', '#5', '#$12', "'q'", '(5,X)', '@5', 'S', '*+2']
JUNK = ['(%s', '%s)', '((%s)', '%s,', '%s%%', '%s+', '%s*', '%s/', '%s(', '%s()', '()%s', '%s b', '%s 1', '%s x', '%s.', '=%s', '?%s',
        '%s?', '##%s', '<%s', '%s<', '+%s+', '*%s*']


def malformed(fam):
    """valid instructions with an operand too many, or with something left over"""
    def case(ctx, item):
        cpu, part, k = item
        rng = ctx.check.rng('mal', cpu, k)
        nums = Nums(rng)
        bad = []
        for mn, shape in part:
            v = rng.randrange(256)
            e = '*+4' if mn in fam.rel(cpu) else nums.expr(v)
            t = spell(rng, fam.shapes[shape], e)
            if rng.random() < .6:
                n = t.count(',')
                x = rng.sample(EXTRA, 2)
                if n or not t:
                    t = rng.choice([t + ',' + x[0], x[0] + ',' + t]) if t else ','.join(x + ['5'])
                else:
                    t = rng.choice([t + ',' + ','.join(x), ','.join(x) + ',' + t, x[0] + ',' + t + ',' + x[1]])
                what = 'extra'
            elif t:
                f = rng.choice(JUNK)
                t, what = f % t, f.replace('%s', '_')
            elif any(m == mn and s_ != 'none' for m, s_ in part):
                continue
            else:
                t, what = rng.choice(EXTRA), 'one'
            bad.append(batch.Line('%s %s' % (rng.choice([mn, mn.lower()]), t), None, '%s_%s_%s' % (mn, shape, what)))
            ctx.seen('malformed', (cpu, mn, shape, what))
        batch.expect_refused(ctx, cpu, bad, nums.prolog(), nums.epilog())
    return case


def run(c, fam, rounds):
    items, sw, mb = [], [], []
    for cpu in fam.cpus:
        pairs = [(m, s) for m in fam.mnemonics() for s in fam.shapes]
        for rd in range(rounds):
            rng = c.rng('order', cpu, rd)
            order = []
            for m, s in pairs:
                ok = m in fam.rel(cpu) or any(fam.encode(cpu, m, s, v, False) is not None for v in (5, 0x1234)) \
                    if fam.has(cpu, m) else False
                order += [(m, s)] * (4 if ok else 1)
            rng.shuffle(order)
            for i in range(0, len(order), 250):
                items.append((cpu, order[i:i + 250], '%d.%d' % (rd, i)))
        for m, s in pairs:
            if not fam.has(cpu, m) or m in fam.rel(cpu) or s in ('none', 'A', ',X', 'X', 'Y', 'S', 'P'):
                continue
            if any(fam.encode(cpu, m, s, v, False) is not None for v in (5, 0x1234)):
                for k in range(c.pick(1, 12)):
                    sw.append((cpu, m, s, k))
                for k in range(c.pick(2, 30)):
                    mb.append((cpu, m, s, k))
    mal = []
    for cpu in fam.cpus:
        ok = [(m, s) for m in fam.mnemonics() for s in fam.shapes if fam.has(cpu, m) and
              (s == 'e' if m in fam.rel(cpu) else fam.encode(cpu, m, s, 5, False) not in (None, 'any'))]
        for rd in range(c.pick(30, 300)):
            rng = c.rng('malorder', cpu, rd)
            order = list(ok)
            rng.shuffle(order)
            mal.append((cpu, order, rd))
    c.parallel(malformed(fam), mal, chunk=1)
    c.parallel(mixed(fam), items, chunk=1)
    c.parallel(sweep(fam), sw, chunk=2)
    c.parallel(maybe(fam), mb)
