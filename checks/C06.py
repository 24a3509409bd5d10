#!/usr/bin/env python3
"""C06: expressions evaluate to the documented 32 bit values."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import batch  # noqa: E402
import expr  # noqa: E402
import listing  # noqa: E402
from numtext import number, hexi  # noqa: E402


def good(rng, depth, env, syms, star=None):
    while True:
        e = expr.gen(rng, depth, syms, star is not None)
        try:
            v = expr.ev(e, env, star)
        except (expr.ZeroDivide, expr.BadShift):
            continue
        t = expr.render(e, rng)
        if len(t) < 180:
            return e, v, t


def be(v, n):
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, 'big')


def symbols(rng):
    env, pro, epi, syms = {}, [], [], []
    for i in range(6):
        n = rng.choice(['k%d', 'Sym_%d', 'z.%d', 'h%dh', 'LO%d', 'b%db', 'abs%d', 'x_%d']) % i
        v = rng.choice(expr.BOUND + [rng.randrange(1 << 32) for _ in range(8)])
        if n.upper() in env:
            continue
        env[n.upper()] = v
        syms.append(n)
        (pro if rng.random() < .7 else epi).append('%s %s %s' % (n, rng.choice(['=', 'equ']), number(v, rng)))
    bits = []
    for i in range(rng.choice([0, 0, 1, 3])):
        # names of bit references: of numbers, of other names, or of parts of them
        n = rng.choice(['pia%d', 'Bit_%d', 'b.%d']) % i
        v = [rng.choice(expr.BOUND + [rng.randrange(1 << 32)]), rng.randrange(33)]
        q = rng.random()
        if q < .2 and bits:
            o = rng.choice(bits)
            v, t = env[o.upper()], o
        elif q < .4 and bits:
            o = rng.choice(bits)
            v[0] = env[o.upper()][1]
            t = 'bit(%s){%s}' % (o, number(v[1], rng))
        elif q < .5 and bits:
            o = rng.choice(bits)
            v[1] = env[o.upper()][1]
            t = '%s{bit(%s)}' % (number(v[0], rng), o)
        else:
            t = '%s{%s}' % (number(v[0], rng), number(v[1], rng))
            if rng.random() < .3:
                pro.append('%s = 9{9}' % n)     # defined once more
        env[n.upper()] = tuple(v)
        pro.append('%s %s %s' % (n, rng.choice(['=', 'equ']), t))
        bits.append(n)
        syms.append((n,))
    return env, pro, epi, syms


def values(ctx, k):
    """DL <expression>, the value in four bytes"""
    rng = ctx.check.rng('v', k)
    env, pro, epi, syms = symbols(rng)
    lines = []
    pos = 0x400
    for i in range(rng.randrange(20, 60)):
        e, v, t = good(rng, rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), env, syms, pos)
        kind = rng.choice(['dl'] * 6 + ['db', 'dw', 'ldx', 'ldaa', 'jmp'])
        if kind == 'dl':
            l = batch.Line(rng.choice(['dl ', 'DL  ', 'dl\t']) + t, be(v, 4), t)
        elif kind in ('db', 'dw'):
            l = batch.Line(kind + ' ' + t, be(v, 1 if kind == 'db' else 2), t)
        elif kind == 'ldx':
            l = batch.Line('ldx #' + t, b'\xce' + be(v, 2), t)
        elif kind == 'ldaa':
            l = batch.Line('ldaa #' + t, b'\x86' + be(v, 1), t)
        else:
            if not expr.bare(t):
                t = '0+' + t if t[0] == '(' else t
            l = batch.Line('jmp ' + t, b'\x7e' + be(v, 2), t)
        if kind == 'jmp' and (t.startswith('(')):
            continue
        lines.append(l)
        pos += len(l.want)
        o = expr.ops(e)
        for x in o:
            ctx.seen('operator_pairs', x)
        ctx.seen('nontrivial', t)
        ctx.seen('values', v)
    ctx.sample(' | '.join(l.text + ' -> ' + l.want.hex() for l in lines[:4]))
    batch.expect_ok(ctx, '6800', lines, pro, epi, 0x400, opts=('-l', '-s'))


def long_expr(rng, room):
    """(text, value) of an expression that takes so many characters"""
    kind = rng.choice(['chain', 'chain', 'tower', 'tower', 'calls', 'zeros', 'blanks', 'nulls', 'unary'])
    if kind == 'chain':
        ops = rng.choice(['+-', '*/', '|&^', '+-*/', '+-*/|&^', ['<<', '>>'], ['+', '-', '*', '|', '&', '^', '<<', '>>']])
        # by levels, from the tightest: shifts, logic, products, sums
        nums, signs, n = [rng.randrange(1, 10)], [], 1
        while True:
            o = rng.choice(ops)
            if n + len(o) + 1 > room:
                break
            signs.append(o)
            nums.append(rng.randrange(1, 10))
            n += len(o) + 1
        t = str(nums[0]) + ''.join(o + str(v) for o, v in zip(signs, nums[1:]))
        tree = [('num', v, '') for v in nums]
        for lv in (3, 2, 1, 0):
            i = 0
            out, left = [tree[0]], []
            for o, v in zip(signs, tree[1:]):
                if expr.LEVEL[o] == lv:
                    out[-1] = ('bin', o, out[-1], v)
                else:
                    left.append(o)
                    out.append(v)
            tree, signs = out, left
        return t, tree[0]
    if kind == 'tower':
        e, t = ('num', 5, ''), '5'
        side = rng.random()
        while len(t) + 6 < room:
            v = rng.randrange(1, 10)
            o = rng.choice('+-*|&^')
            if rng.random() < .1:
                e, t = (('neg', e), '-(%s)' % t) if rng.random() < .5 else (('not', e), '~(%s)' % t)
            elif rng.random() < side:
                e, t = ('bin', o, ('num', v, ''), e), '%d%s(%s)' % (v, o, t)
            else:
                e, t = ('bin', o, e, ('num', v, '')), '(%s)%s%d' % (t, o, v)
        return t, e
    if kind == 'calls':
        v = rng.randrange(1 << 32)
        e, t = ('num', v, ''), '$%X' % v
        while len(t) + 6 < room:
            f = rng.choice(['LO', 'LO', 'HI'])
            e, t = ('fn', f, e), '%s(%s)' % (rng.choice([f, f.lower()]), t)
        return t, e
    if kind == 'zeros':
        v = rng.choice([5, 0xffffffff, rng.randrange(1 << 32)])
        pre, d, suf = rng.choice([('', '%d' % v, ''), ('$', '%x' % v, ''), ('0x', '%X' % v, ''), ('0', '%X' % v, 'h'), ('', '%o' % v, 'q'),
                                  ('%', '{:b}'.format(v), ''), ('0b', '{:b}'.format(v), ''), ('0', '{:b}'.format(v), 'b')])
        return pre + '0' * (room - len(pre + d + suf)) + d + suf, ('num', v, '')
    if kind == 'blanks':
        v, w = rng.randrange(1000), rng.randrange(1000)
        return '%d%s+%s%d' % (v, ' ' * rng.randrange(room // 2 - 5), '\t' * rng.randrange(room // 2 - 5), w), ('num', v + w, '')
    if kind == 'nulls':
        c = rng.choice('abc')
        return "'%s%s'" % ('\\0' * ((room - 3) // 2), c), ('num', ord(c), '')
    e, t = ('num', 7, ''), '7'
    while len(t) + 4 < room:
        e, t = (('neg', e), '-(%s)' % t) if rng.random() < .5 else (('not', e), '~(%s)' % t)
    return t, e


def longs(ctx, k):
    """expressions as long as a line may be"""
    rng = ctx.check.rng('long', k)
    lines = []
    for _ in range(12):
        while True:
            t, e = long_expr(rng, rng.choice([225, 235, 240, rng.randrange(20, 240)]))
            try:
                v = expr.ev(e, {})
                break
            except (expr.ZeroDivide, expr.BadShift):
                continue
        lines.append(batch.Line('dl ' + t, be(v, 4), t))
        ctx.seen('nontrivial', t)
        ctx.seen('lengths', len(t))
    batch.expect_ok(ctx, '6800', lines, opts=('-l', '-s'))


def contexts(ctx, k):
    """the same value wherever an expression may stand"""
    rng = ctx.check.rng('c', k)
    env, pro, epi, syms = symbols(rng)
    e, v, t = good(rng, rng.choice([1, 2, 3, 4]), env, syms)
    e2, v2, t2 = good(rng, rng.choice([1, 2, 3]), env, syms)
    if epi:
        pro, epi = pro + epi, []
    files = ' cpu 6801\n page 0,250\n' + '\n'.join(pro) + '\n* = $200\n'
    want = b''
    # a symbol defined by the expression; afterwards, in terms of other symbols
    files += 'res = %s\n dl res\n' % t
    want += be(v, 4)
    files += 'res2 equ %s\n dl res2-res\n' % t2
    want += be(v2 - v, 4)
    for op, f in (('=', v == v2), ('==', v == v2), ('<>', v != v2), ('!=', v != v2), ('<', v < v2), ('>', v > v2),
                  ('<=', v <= v2), ('>=', v >= v2)):
        a, b = ('(%s)' % t if '<' in t or '>' in t or '=' in t else t), ('(%s)' % t2 if '<' in t2 or '>' in t2 or '=' in t2 else t2)
        if '=' in t + t2 or any(c in t + t2 for c in '\'"'):
            a, b = 'res', 'res2'
        s = rng.choice(['', ' '])
        files += ' if %s%s%s%s%s\n db 1\n else\n db 0\n endc\n' % (a, s, op, s, b)
        want += bytes([f])
    files += ' if res\n db 1\n else\n db 0\n endc\n'
    want += bytes([v != 0])
    n = expr.wrap(v) % 37
    # modulo by hand: the value masked with 31 as a size
    files += ' ds (%s)&31,7\n' % t if not t.startswith('(') or True else ''
    want += bytes([7]) * (v & 31)
    files += '* = ((%s)&$7fff)+$1000\nhere db 1\n dw here\n' % t
    ctx.add('cases', 14)
    r = ctx.run(files, ('-x', '-s'))
    import objfile
    if not r.o.ok():
        ctx.violation('ctx:refused', 'expression %r refused in some context: %s' % (t, r.o.errors[:2]), r)
        return
    ob = objfile.parse(r.obj)
    st = ob.stream()
    addr = (v & 0x7fff) + 0x1000
    exp = [(0x200 + i, b) for i, b in enumerate(want)] + [(addr, 1), (addr + 1, addr >> 8), (addr + 2, addr & 255)]
    if st != exp:
        i = next((i for i in range(min(len(st), len(exp))) if st[i] != exp[i]), min(len(st), len(exp)))
        ctx.violation('ctx:value', 'value of %r (=%d) or %r (=%d) differs in some context: byte %d is %s, expected %s'
                      % (t, v, t2, v2, i, st[i:i + 1], exp[i:i + 1]), r)
        return
    sy, junk = listing.symtab(r.o)
    d = {x[3]: x[1] for x in sy}
    if d.get('RES') != v & 0xffff or d.get('RES2') != v2 & 0xffff:
        ctx.violation('ctx:symtab', 'symbol table shows %r for %r, expected %X' % (d.get('RES'), t, v & 0xffff), r)


BAD = ['12A', '0x', '$', '%', '$G1', '%12', '9Q', '18Q', '0b2', '1 2', '1+', '*5', '/5', '1*/2', '1***', '(1', '1)', '1(2)',
       ')1(', 'HI 3', 'LO', 'HI()', "'a", '"a', "'a\"", "'\\x'", "'\\q'", "'a'b", '1,', '()', '{3}', '5{3}', '5{', '5}',
       'BIT(5)', 'ADDR(5)', 'BIT(5{40})', 'nosuch', 'nosuch+1', '1+nosuch', '-nosuch', 'HI(nosuch)', '~', '-', '1-', '1<<',
       '1>>', '<<1', '1&', '|1', '1^', '@5', '#5', '5:', '5!', '.', '1.5', '0.12', 'FC84H', '1H2', '0xFG', 'x y', '"', "'",
       '\\', '1\\2', "'abcde'", '"12345"', '10000000000000000000000', '4294967296', '4294967297', '99999999999', '$100000000',
       '0x100000000', '100000000H', '0FFFFFFFFFH', '$FFFFFFFFF', '40000000000Q', '77777777777Q', '777777777777Q',
       '%' + '1' * 33, '%1' + '0' * 32, '1' * 33 + 'B', '0b1' + '0' * 32, '42949672960', '4294967295+4294967296']
# syntax that other processors use for registers is covered by C12 to C14


def malformed(ctx, k):
    rng = ctx.check.rng('m', k)
    lines = []
    for b in rng.sample(BAD, len(BAD)):
        q = rng.random()
        if q < .5 or b in ('1,', '*5', '()', '{3}'):
            t = b
        elif q < .75:
            t = '%s+(%s)' % (number(rng.randrange(100), rng), b) if not any(c in b for c in '()\'"\\,{}') else b
        else:
            t = '(%s)*3-1' % b if not any(c in b for c in '()\'"\\,{}') else b
        d = rng.choice(['dl', 'db', 'dw', 'ds', 'x ='])
        if b == '1,' and d == 'ds':
            d = 'db'
        if b == '1,' and d == 'x =':
            d = 'dw'
        if b == '5{3}' and d == 'x =':
            d = 'dl'
        lines.append(batch.Line(d + ' ' + t if d != 'x =' else 'qq%d = %s' % (len(lines), t), None, b))
    # numbers that are too large, at random
    for _ in range(30):
        v = rng.choice([1 << 32, (1 << 32) + rng.randrange(1 << 20), rng.randrange(1 << 32, 1 << 33),
                        rng.randrange(1 << 33, 1 << 64), 10 ** rng.randrange(10, 25)])
        t = rng.choice([lambda: '%d' % v, lambda: '$%X' % v, lambda: '0x%x' % v, lambda: hexi(v), lambda: '%oQ' % v,
                        lambda: '%' + '{:b}'.format(v), lambda: '{:b}B'.format(v), lambda: '0b{:b}'.format(v)])()
        lines.append(batch.Line('dl ' + t, None, 'too-large:' + t))
    for _ in range(10):
        t, _v = expr.ascii_const(rng, rng.randrange(5, 9))
        if t[1] == '\\' and t[2] == '0' or t[1] == '\0':
            continue
        lines.append(batch.Line('dl ' + t, None, 'ascii:' + t))
    ctx.add('malformed_lines', len(lines))
    batch.expect_refused(ctx, '6502', lines, ['known = 5'])


PLACES = [' dl %s', ' db %s', ' dw %s', ' ddb %s', ' ds %s', ' ds 5,%s', ' db 1,%s', ' dl %s,2', '* = %s', '* equ %s', ' if %s', ' if %s=1', ' if 1<>%s', ' if %s>%s',
          ' skip %s', ' page %s,80', ' page 60,%s', 'qq{N} = -(%s)', 'qq{N} = %s{1}', 'qq{N} = 1{%s}', 'qq{N} equ %s+1', 'qq{N} = lo(%s)', 'qq{N} = 5*(%s)', 'qq{N} = %s/2',
          'qq{N} = %s<<1', 'qq{N} = 1>>%s', 'qq{N} = %s|1', 'qq{N} = 1&%s', 'qq{N} = %s^%s', 'qq{N} = ~%s', 'qq{N} = hi(%s)', 'qq{N} = addr(5{%s})', 'qq{N} = 1-%s',
          ' lda %s', ' lda #%s', ' jmp %s', ' bne %s', ' sta %s,y', ' jmp (%s)', ' ldx #lo(%s)']


def kinds(ctx, item):
    """what is not a number, where a number is wanted"""
    place, cpu = item
    lines = []
    pro = ['mm macro', ' db 3', ' endm', 'bs = 5{3}', 'alias = mm', 'alis = db', 'bs2 = bs']
    for i, k in enumerate(['mm', 'bs', 'alias', 'alis', 'db', 'DS', 'if', 'cpu', 'x', 'a' if cpu == '6502' else 'hl', 'lda' if cpu == '6502' else 'ld', 'bs2', 'equ', 'Macro']):
        if (place, k) in ((' lda %s', 'a'), (' ds 5,%s', 'x')) or k in ('a', 'x', 'hl') and (' %s' in place[1:] or cpu == 'Z80' and ('#' in place or k == 'x')):
            if k == 'x' and cpu == 'Z80':
                k = 'sp'
            elif 'qq' not in place:
                continue
        t = place.replace('%s', k).replace('{N}', str(i))
        lines.append(batch.Line(t, None, t))
        ctx.seen('nontrivial', (t, cpu))
    # the lines stand as they are: with a label, or from the first column
    text = '\n'.join([' cpu ' + cpu, '* = $200'] + pro) + '\n'
    first = text.count('\n') + 1
    text += ''.join(l.text + '\n' for l in lines)
    ctx.add('cases', len(lines))
    r = ctx.run(text, ('-l', '-s'))
    want = list(range(first, first + len(lines)))
    if r.kind != 'exit' or r.code or r.o.fatal or sorted(set(r.o.errlines())) != want:
        bad = [n for n in want if n not in r.o.errlines()] if r.kind == 'exit' else []
        ctx.violation('kinds:' + place, '%s: %r is accepted, although it is not a number' % (
            cpu, lines[bad[0] - first].text) if bad else 'ended with %s %s, errors %s' % (r.describe(), r.o.fatal, r.o.errors[:3]), r)


def notations(ctx, k):
    """every notation of boundary and random numbers"""
    from numtext import NOTATIONS
    rng = ctx.check.rng('n', k)
    lines = []
    for i in range(200):
        v = rng.choice(expr.BOUND + [1 << j for j in range(32)] + [(1 << j) - 1 for j in range(33)] +
                       [rng.randrange(1 << 32) for _ in range(80)])
        j = rng.randrange(len(NOTATIONS))
        t = NOTATIONS[j](v)
        if rng.random() < .2 and t[0].isdigit() and t[1:2] not in ('x', 'X', 'b') and len(t) < 60:
            t = '0' * rng.randrange(1, 4) + t if not t.startswith('0b') and not t.startswith('0x') else t
        ctx.seen('notations', (j, v.bit_length()))
        lines.append(batch.Line('dl ' + t, be(v, 4), t))
    for _ in range(60):
        t, v = expr.ascii_const(rng)
        lines.append(batch.Line('dl ' + t, be(v, 4), t))
    batch.expect_ok(ctx, '6800', lines)


def go():
    c = Check('C06')
    c.parallel(values, range(c.pick(3750, 60000)))
    c.parallel(contexts, range(c.pick(5000, 60000)))
    c.parallel(malformed, range(c.pick(150, 1500)))
    c.parallel(kinds, [(p, c) for p in PLACES for c in ('6502', '6801', 'Z80') if c == '6502' or p[:3] not in (' ld', ' st', ' jm', ' bn')])
    c.parallel(longs, range(c.pick(400, 6000)))
    c.parallel(notations, range(c.pick(150, 1500)))
    c.finish('random expression trees over all operators, notations and symbols, evaluated by an independent evaluator; '
             'non-trivial: distinct expression texts', need=1000)


main(go)
