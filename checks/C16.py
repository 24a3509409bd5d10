#!/usr/bin/env python3
"""C16: data directives emit exactly the data written."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import batch  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
from batch import Line  # noqa: E402
from numtext import Nums, number  # noqa: E402

BIG = gen.BIG
CPUS = gen.CPUS
WIDTH = {'DB': 1, 'DW': 2, 'DL': 4, 'DDB': 2}
ESC = {'t': 9, 'n': 10, 'r': 13, '0': 0, "'": 39, '"': 34, '\\': 92}
EDGE = [0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x10000, 0x12345, 0xffff00, 0x1000000,
        0x7fffffff, 0x80000000, 0xff000000, 0xfffffffe, 0xffffffff]


def enc(cpu, op, v):
    w = WIDTH[op]
    big = (cpu in BIG) != (op == 'DDB')
    return (v & ((1 << 8 * w) - 1)).to_bytes(w, 'big' if big else 'little')


def case_(rng, s):
    return rng.choice([s, s.lower(), s.lower(), s.capitalize()])


def quoted(rng, data):
    """an ASC operand for the bytes"""
    q = rng.choice('"\'')
    t = ''
    for b in data:
        c = chr(b)
        if b in (0, 9, 10, 13) and not (b == 9 and rng.random() < .2):
            t += {0: '\\0', 9: '\\t', 10: '\\n', 13: '\\r'}[b]
        elif c == '\\' or c == q:
            t += '\\' + c
        elif c in '\'"' and rng.random() < .3:
            t += '\\' + c
        else:
            t += c
    return q + t + q


def strings(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 16, 17, 20, 21, 40, 100])
    q = rng.random()
    if q < .4:
        return bytes(rng.choice(range(32, 127)) for _ in range(n))
    if q < .6:
        return bytes(rng.choice(b'\'"\\;,() \t\n\r\0x') for _ in range(n))
    if q < .8:
        return bytes(rng.choice(list(range(32, 127)) + [0, 9, 10, 13]) for _ in range(n))
    return bytes(rng.choice(list(range(128, 256)) + list(range(32, 127))) for _ in range(n))


def item_text(rng, v, nums):
    q = rng.random()
    if q < .15 and 32 < v < 127 and chr(v) not in '\'"\\':
        return rng.choice(["'%s'", '"%s"']) % chr(v)
    if q < .25 and v in (0, 9, 10, 13, 34, 39, 92):
        return "'\\%s'" % {0: '0', 9: 't', 10: 'n', 13: 'r', 34: '"', 39: "'", 92: '\\'}[v]
    return nums.expr(v)


def good(rng, cpu, nums):
    q = rng.random()
    if q < .5:
        op = rng.choice(['DB', 'DB', 'DW', 'DW', 'DL', 'DDB'])
        lim = 1 << 8 * WIDTH[op]
        vals = []
        items = []
        size = 0
        for _ in range(rng.choice([1, 1, 2, 3, 5, 10, 40])):
            v = rng.choice([rng.choice([x for x in EDGE if x < lim]), rng.randrange(lim), rng.randrange(256)])
            t = item_text(rng, v, nums)
            size += len(t) + 3
            if size > 190:
                break
            vals.append(v)
            items.append(t)
        sep = lambda: rng.choice([',', ',', ', ', ' ,', ' , ', '\t,\t'])  # noqa: E731
        t = items[0] + ''.join(sep() + i for i in items[1:])
        return Line('%s %s' % (case_(rng, op), t), b''.join(enc(cpu, op, v) for v in vals))
    if q < .8:
        d = strings(rng)
        t = quoted(rng, d)
        if len(t) > 200:
            d = d[:20]
            t = quoted(rng, d)
        return Line('%s %s' % (case_(rng, 'ASC'), t), d)
    n = rng.choice([0, 1, 2, 15, 16, 17, 19, 20, 21, 22, 255, 256, 257, rng.randrange(700)])
    if rng.random() < .5:
        return Line('%s %s' % (case_(rng, 'DS'), nums.expr(n)), bytes(n))
    v = rng.randrange(256)
    return Line('%s %s%s%s' % (case_(rng, 'DS'), nums.expr(n), rng.choice([',', ', ', ' , ']), item_text(rng, v, nums)), bytes([v]) * n)


def mixed(ctx, item):
    rng = ctx.check.rng('mix', item)
    cpu = rng.choice(CPUS)
    nums = Nums(rng)
    org = rng.choice([0, 0x200, 0x1001, 0x8000, 0xfff0, 0x12345])
    pc = org
    lines = []
    for _ in range(rng.choice([1, 10, 40])):
        if rng.random() < .15:
            odd = rng.random() < .5
            w = b'\0' if (pc & 1) != odd else b''
            lines.append(Line('%s %s' % (case_(rng, 'ALIGN'), case_(rng, 'ODD' if odd else 'EVEN')), w))
            ctx.seen('aligns', (odd, pc & 1))
        else:
            lines.append(good(rng, cpu, nums))
        pc += len(lines[-1].want)
        ctx.seen('nontrivial', lines[-1].text)
    ctx.sample(' | '.join(l.text[:60] for l in lines[:4]))
    batch.expect_ok(ctx, cpu, lines, nums.prolog(), (), org)


def over(ctx, item):
    """values that do not fit (a warning is C24's business) emit their low-order part and
    disturb neither the rest of the line nor the lines after it"""
    rng = ctx.check.rng('over', item)
    cpu = rng.choice(CPUS)
    nums = Nums(rng)
    lines = []
    for _ in range(rng.choice([3, 20, 40])):
        q = rng.random()
        if q < .3:
            lines.append(good(rng, cpu, nums))
        elif q < .45:
            n = rng.choice([1, 2, 3, 16, 20, 60])
            v = rng.choice([256, 0x1ab, 0xffff, 0x10001, 0x7fffffff, 0x80000055, 0xffffffff, rng.randrange(256, 1 << 32)])
            lines.append(Line('%s %s%s%s' % (case_(rng, 'DS'), nums.expr(n), rng.choice([',', ', ']), nums.expr(v)), bytes([v & 255]) * n))
            ctx.seen('nontrivial', lines[-1].text)
        else:
            op = rng.choice(['DB', 'DW', 'DDB', 'DDB'])
            lim = 1 << 8 * WIDTH[op]
            vals = [rng.choice([rng.randrange(lim), rng.randrange(lim, 1 << 32), lim, lim + 1, 0xffffffff, 0x80000000, 0x7fffffff,
                                rng.choice(EDGE)]) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
            items = [nums.expr(v) for v in vals]
            while sum(len(t) + 3 for t in items) > 230:    # a line has an end
                items.pop()
            lines.append(Line('%s %s' % (case_(rng, op), rng.choice([',', ', ', ' , ']).join(items)),
                              b''.join(enc(cpu, op, v) for v in vals[:len(items)])))
            ctx.seen('nontrivial', lines[-1].text)
    batch.expect_ok(ctx, cpu, lines, nums.prolog())


def values(ctx, item):
    """every byte, and the edges of every width, for every directive and processor"""
    cpu, op = item
    rng = ctx.check.rng('val', item)
    lim = 1 << 8 * WIDTH[op]
    vals = list(range(256)) + [v for v in EDGE if v < lim] + [1 << b for b in range(8 * WIDTH[op])] + \
        [rng.randrange(lim) for _ in range(200)]
    lines = [Line('%s %s' % (op.lower(), number(v, rng)), enc(cpu, op, v)) for v in vals]
    for l in lines:
        ctx.seen('nontrivial', (cpu, l.text))
    batch.expect_ok(ctx, cpu, lines)
    if op == 'DL':
        # negative values
        neg = [-1, -2, -128, -32768, -65536, -0x7fffffff, -12345678]
        batch.expect_ok(ctx, cpu, [Line('dl %d' % v, enc(cpu, op, v)) for v in neg])


def asc_all(ctx, item):
    """every character between every pair of neighbours, in both quotes; every escape"""
    rng = ctx.check.rng('asc', item)
    cpu = rng.choice(CPUS)
    lines, bad = [], []
    for b in list(range(32, 127)) + list(range(128, 256)) + [9]:
        c = chr(b)
        for q in '\'"':
            if c not in (q, '\\'):
                lines.append(Line('asc %s%s%s' % (q, c, q), bytes([b])))
                lines.append(Line('asc %sa%sb%s%s' % (q, c, c, q), b'a' + bytes([b]) + b'b' + bytes([b])))
            if 32 <= b < 127:
                if c in ESC:
                    lines.append(Line('asc %s\\%s%s' % (q, c, q), bytes([ESC[c]])))
                    lines.append(Line('asc %s\\%s\\%s;\\%s%s' % (q, c, c, c, q), bytes([ESC[c]] * 2) + b';' + bytes([ESC[c]])))
                else:
                    bad.append(Line('asc %s\\%s%s' % (q, c, q), None))
    for l in lines + bad:
        ctx.seen('nontrivial', l.text)
    batch.expect_ok(ctx, cpu, lines)
    batch.expect_refused(ctx, cpu, bad)


BAD = ['db', 'dw', 'dl', 'ddb', 'asc', 'ds', 'align', 'db 1,', 'db ,1', 'db 1,,2', 'db ,', 'dw 1,', 'dl ,', 'ddb 1,,', 'db 1 2', 'db #1', 'db (1',
       'db 1)', 'db 1+', 'db *1', 'dw )', "db 'a", 'db "a', "db 'abcde'", "db 'a'b", 'db "a"b"', 'db $', 'db $G', 'db %2', 'db 0x',
       'db 12A', 'db 8q', 'db 2b', 'db $100000000', 'dl 4294967296', 'db 0x1ffffffff', 'dl 111111111111111111111111111111111B', 'asc abc', 'asc "abc',
       "asc 'abc", 'asc abc"', 'asc "abc\'', 'asc "a" b', "asc 'a'b", 'asc "a""b"', 'asc "a\\"', 'asc "\\x"', 'asc "\\1"', 'asc "\\', 'asc 5', 'asc \\"a"',
       'ds -1', 'ds -100,5', 'ds ,5', 'ds 5,', 'ds 1,2,3', 'ds x y', 'ds (', 'ds "', 'align 1', 'align 2', 'align odd,even', 'align oddly', 'align ev',
       'align even odd', 'db nosuch', 'dw 1,nosuch', 'dl nosuch+1', 'ddb lo(nosuch)', 'ds 5,nosuch', 'db a{1}b', 'db 5{3}', 'dw 5{3}', 'dl 1{2}',
       'db db', 'dw dw', 'dl nop', 'db 1;2'.replace(';', ' '), 'db 1 + + 2', 'dw *5*', 'db 3/', 'db &3', 'db 3&', 'db <1', 'dw 1>>', 'db ~', 'db -',
       'db hi', 'db lo', 'db hi(', 'db lo()', 'db hi 5', 'dl 099999999999', 'db 1 ,', 'db , , 1']


def refused(ctx, item):
    rng = ctx.check.rng('bad', item)
    cpu = rng.choice(CPUS)
    lines = []
    for b in BAD:
        op, _, arg = b.partition(' ')
        lines.append(Line((case_(rng, op.upper()) + rng.choice([' ', '\t', '  ']) + arg).rstrip(), None, key=b))
        ctx.seen('nontrivial', b)
    batch.expect_refused(ctx, cpu, lines)
    g = []
    nums = Nums(rng)
    for b in rng.sample(lines, 30):
        g += [b, good(rng, cpu, nums)]
    g = [l for l in g if l.want is None or 0 < len(l.want) <= 20]
    batch.expect_listed(ctx, cpu, g, nums.prolog())


def long_(ctx, item):
    """lines as long as a line may be: lists of many elements, strings of many characters"""
    rng = ctx.check.rng('long', item)
    cpu = rng.choice(CPUS)
    org = rng.choice([0, 0x200, 0x8001, 0xff80])
    lines = []
    for _ in range(20):
        room = rng.choice([238, 230, 210, rng.randrange(30, 238)])
        if rng.random() < .5:
            op = rng.choice(['DB', 'DB', 'DW', 'DL', 'DDB'])
            top = rng.choice([10, 10, 10, 100, 256])
            vals, t = [], ''
            while True:
                v = rng.randrange(top)
                e = ('' if not t else ',') + (str(v) if rng.random() < .97 or not 48 <= v < 58 else "'%c'" % v)
                if len(t) + len(e) > room:
                    break
                vals.append(v)
                t += e
            lines.append(Line('%s %s' % (case_(rng, op), t), b''.join(enc(cpu, op, v) for v in vals)))
            ctx.seen('elements', (op, len(vals)))
        else:
            d = bytes(rng.choice(range(97, 123)) for _ in range(room))
            t = quoted(rng, d)
            lines.append(Line('%s %s' % (case_(rng, 'ASC'), t), d))
            ctx.seen('characters', len(d))
        ctx.seen('nontrivial', lines[-1].text)
        if rng.random() < .3:
            lines.append(Line('db %d' % item, bytes([item & 255])) if item < 256 else Line('db 7', b'\7'))
    batch.expect_ok(ctx, cpu, lines, org=org)


def big(ctx, item):
    """DS of any size that a program may need"""
    rng = ctx.check.rng('big', item)
    n = rng.choice([1 << rng.randrange(10, 19), rng.randrange(1000, 400000), rng.choice([65535, 65536, 65537, 131072, 131073, 200000, 262145])])
    v = rng.choice([None, 0, 0xff, rng.randrange(256)])
    lines = [Line('db 1', b'\1'), Line('ds %s%s' % (number(n, rng), '' if v is None else ',' + number(v, rng)), bytes([v or 0]) * n),
             Line('db 2', b'\2')]
    ctx.seen('big', (n, v))
    ctx.seen('nontrivial', (n, v))
    batch.expect_ok(ctx, rng.choice(CPUS), lines, org=rng.choice([0, 0x200, 0xfff0, 0x12345]))


def sizes(ctx, n):
    """DS of every size, with the address after it"""
    rng = ctx.check.rng('ds', n)
    lines = []
    for k in range(n, n + 8):
        v = rng.randrange(256)
        lines += [Line('ds %s,%s' % (number(k, rng), number(v, rng)), bytes([v]) * k), Line('ds %s' % number(k, rng), bytes(k)),
                  Line('db %s' % number(k & 255, rng), bytes([k & 255]))]
        ctx.seen('nontrivial', k)
    batch.expect_ok(ctx, rng.choice(CPUS), lines, org=0x100)


def noorg(ctx, item):
    """data without an origin is an error, whatever the program does below"""
    rng = ctx.check.rng('noorg', item)
    cpu = rng.choice(CPUS)
    d = [rng.choice(['db 1', 'dw 1', 'ddb 2', 'dl 3', 'asc "x"', 'ds 1', 'ds 5,6', 'align even', 'align odd', 'ALIGN EVEN', 'Align Odd'])
         for _ in range(rng.choice([1, 1, 2, 3]))]
    t = [' cpu %s' % cpu] + [' ' + x for x in d]
    first = 2
    if rng.random() < .3:
        t = ['mm macro'] + t[1:] + [' endm'] + t[:1] + [' mm']
        first = None
    t += ['* = %s' % number(rng.choice([0, 1, 2, 3, 0x201, rng.randrange(1 << 16), rng.randrange(1 << 32)]), rng)]
    for _ in range(rng.randrange(0, 6)):
        t.append(rng.choice([' db 1', ' ds %d' % rng.randrange(9), ' asc "odd"', ' align even', ' align odd', '* = $%X' % rng.randrange(1 << 20)]))
    r = ctx.run('\n'.join(t) + '\n', rng.choice([('-l',), ()]))
    ctx.add('cases')
    ctx.seen('nontrivial', tuple(t))
    if r.kind != 'exit' or r.code != 0:
        ctx.violation('noorg:end', 'ended with %s' % r.describe(), r)
    elif r.o.nerr != len(d) or first and r.o.errlines() != list(range(first, first + len(d))) or r.obj is not None:
        ctx.violation('noorg', 'without an origin: %s; reported: %s' % (d, r.o.errors), r)


def anyprog(ctx, item):
    """data directives between labels, sections and origins"""
    rng = ctx.check.rng('prog', item)
    p = gen.program(rng, n=rng.choice([10, 40, 100]), instrs=False, branches=False, far=rng.random() < .3)
    r = ctx.run(p.text(), ('-l',))
    ctx.add('cases')
    if judge.code(ctx, r, p, 'prog'):
        ctx.seen('nontrivial', p.text())


def go():
    c = Check('C16')
    q = c.pick(3, 15)
    c.parallel(values, [(cpu, op) for cpu in CPUS for op in WIDTH])
    c.parallel(asc_all, range(4 * q))
    c.parallel(mixed, range(6000 * q))
    c.parallel(over, range(1000 * q))
    c.parallel(refused, range(40 * q))
    c.parallel(long_, range(150 * q))
    c.parallel(big, range(12 * q))
    c.parallel(sizes, range(0, c.pick(400, 4000), 8))
    c.parallel(noorg, range(400 * q))
    c.parallel(anyprog, range(2500 * q))
    c.finish('every byte and edge value for every directive and processor, every character and escape in strings, all sizes of DS up to '
             '%d, random lists, malformed operands that must be refused; non-trivial: distinct directive lines' % c.pick(400, 4000), need=20000)


main(go)
