"""Random expressions with an independent evaluator and a renderer.

Nodes: ('num', v, text) ('sym', name) ('star',) ('neg', e) ('not', e)
       ('bin', op, a, b) ('fn', 'HI'|'LO', e) ('bitfn', 'BIT'|'ADDR', a, n)
"""
from numtext import number

LEVEL = {'+': 0, '-': 0, '*': 1, '/': 1, '|': 2, '&': 2, '^': 2, '<<': 3, '>>': 3}


def wrap(v):
    v &= 0xffffffff
    return v - (1 << 32) if v & 0x80000000 else v


class ZeroDivide(Exception):
    pass


class BadShift(Exception):
    pass


def ev(e, env, star=None):
    k = e[0]
    if k == 'num':
        return wrap(e[1])
    if k == 'sym':
        return wrap(env[e[1].upper()])
    if k == 'bitsym':
        return wrap(env[e[2].upper()][e[1] == 'BIT'])
    if k == 'star':
        return wrap(star)
    if k == 'neg':
        return wrap(-ev(e[1], env, star))
    if k == 'not':
        return wrap(~ev(e[1], env, star))
    if k == 'fn':
        v = ev(e[2], env, star)
        return (v >> 8) & 0xff if e[1] == 'HI' else v & 0xff
    if k == 'bitfn':
        return ev(e[2], env, star) if e[1] == 'ADDR' else ev(e[3], env, star)
    a, b = ev(e[2], env, star), ev(e[3], env, star)
    op = e[1]
    if op == '+':
        return wrap(a + b)
    if op == '-':
        return wrap(a - b)
    if op == '*':
        return wrap(a * b)
    if op == '/':
        if b == 0:
            raise ZeroDivide()
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q)
    if op == '|':
        return wrap(a | b)
    if op == '&':
        return wrap(a & b)
    if op == '^':
        return wrap(a ^ b)
    if not 0 <= b < 32:
        raise BadShift()
    return wrap(a << b) if op == '<<' else a >> b


CHARS = [c for c in map(chr, range(32, 127)) if c not in '\\\'"']


def ascii_const(rng, n=None):
    """(text, value)"""
    q = rng.choice('\'"')
    v, t = 0, ''
    for _ in range(n if n is not None else rng.randrange(1, 5)):
        p = rng.random()
        if p < .8:
            c = rng.choice(CHARS + (['"'] if q == "'" else ["'"]))
            t, b = t + c, ord(c)
        else:
            s, b = rng.choice([('\\t', 9), ('\\n', 10), ('\\r', 13), ('\\0', 0), ('\\\'', 39), ('\\"', 34),
                               ('\\\\', 92)])
            t += s
        v = (v << 8) + b
    return q + t + q, v


BOUND = [0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000,
         0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]


def const(rng, small=False, chars=True):
    if chars and not small and rng.random() < .12:
        t, v = ascii_const(rng)
        return ('num', v, t)
    if small:
        v = rng.randrange(32)
    else:
        q = rng.random()
        v = rng.choice(BOUND) if q < .35 else rng.randrange(1 << 32) if q < .55 else \
            rng.randrange(1 << rng.randrange(1, 32)) if q < .8 else rng.randrange(20)
    return ('num', v, number(v, rng))


def gen(rng, depth, syms, star=False, chars=True):
    """an expression that evaluates without zero division or odd shift counts is not
    guaranteed: the caller retries"""
    if depth <= 0 or rng.random() < .1:
        q = rng.random()
        if syms and q < .4:
            n = rng.choice(syms)
            if isinstance(n, tuple):        # the name of a bit reference
                return ('bitsym', rng.choice(['BIT', 'ADDR']), n[0])
            return ('sym', n)
        if star and q < .46:
            return ('star',)
        return const(rng, chars=chars)
    q = rng.random()
    if q < .08:
        return ('neg', gen(rng, depth - 1, syms, star, chars))
    if q < .16:
        return ('not', gen(rng, depth - 1, syms, star, chars))
    if q < .26:
        return ('fn', rng.choice(['HI', 'LO']), gen(rng, depth - 1, syms, star, chars))
    if q < .30:
        return ('bitfn', rng.choice(['BIT', 'ADDR']), gen(rng, depth - 1, syms, star, chars), const(rng, True) if rng.random() < .6 else
                ('bin', '&', gen(rng, depth - 2, syms, star, chars), ('num', 31, number(31, rng))))
    op = rng.choice(list(LEVEL))
    a = gen(rng, depth - 1, syms, star, chars)
    if op in ('<<', '>>'):
        b = const(rng, True) if rng.random() < .8 else ('bin', '&', gen(rng, depth - 2, syms, star, chars),
                                                         ('num', 31, '31'))
    else:
        b = gen(rng, depth - 1 - (rng.random() < .5), syms, star, chars)
    return ('bin', op, a, b)


def render(e, rng, blanks=.1, redundant=.08):
    def sp():
        return rng.choice([' ', '  ', '\t']) if rng.random() < blanks else ''

    def cs(s):
        return rng.choice([s.upper(), s.lower(), s])

    def par(t):
        return '(' + sp() + t + sp() + ')'

    def level(x):
        return LEVEL[x[1]] if x[0] == 'bin' else 4 if x[0] in ('neg', 'not') else 5

    def rec(x):
        k = x[0]
        if k == 'num':
            return x[2]
        if k == 'sym':
            return cs(x[1])
        if k == 'bitsym':
            return cs(x[1]) + sp() + par(cs(x[2]))
        if k == 'star':
            return '*'
        if k in ('neg', 'not'):
            t = rec(x[1])
            if level(x[1]) < 5 or rng.random() < redundant:
                t = par(t)
            return ('-' if k == 'neg' else '~') + t
        if k == 'fn':
            return cs(x[1]) + sp() + par(rec(x[2]))
        if k == 'bitfn':
            a, n = rec(x[2]), rec(x[3])
            if level(x[2]) < 5:
                a = par(a)
            if level(x[3]) < 5:
                n = par(n)
            return cs(x[1]) + par(a + sp() + '{' + sp() + n + sp() + '}')
        op, a, b = x[1], x[2], x[3]
        lv = LEVEL[op]
        ta, tb = rec(a), rec(b)
        if level(a) < lv or rng.random() < redundant:
            ta = par(ta)
        if level(b) <= lv or tb[0] == '-' or (tb[0] == '~' and rng.random() < .5) or rng.random() < redundant:
            tb = par(tb)
        # the star label next to the multiplication sign is legal but unreadable
        if op == '*' and (ta.endswith('*') or tb.startswith('*')):
            ta, tb = (par(ta) if ta.endswith('*') else ta), (par(tb) if tb.startswith('*') else tb)
        return ta + sp() + op + sp() + tb
    return rec(e)


def bare(t):
    """could the text be taken for a parenthesised operand or indirection?"""
    if not t.startswith('('):
        return True
    q, depth, i = '', 0, 0
    while i < len(t):
        c = t[i]
        if q:
            if c == '\\':
                i += 1
            elif c == q:
                q = ''
        elif c in '\'"':
            q = c
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if not depth:
                return bool(t[i + 1:].strip())
        i += 1
    return True


def ops(e):
    """operators used, with the parent they are under (for coverage accounting)"""
    res = set()

    def rec(x, up):
        name = x[1] if x[0] in ('bin', 'fn', 'bitfn', 'bitsym') else x[0]
        res.add((up, name))
        for i, y in enumerate(x[1:]):
            if isinstance(y, tuple):
                rec(y, (name, i))
    rec(e, None)
    return res
