"""Spellings of numbers: notations, symbols defined before or after, small expressions."""


def hexi(v):
    s = '%X' % v
    return ('0' if not s[0].isdigit() else '') + s + 'H'


NOTATIONS = [
    lambda v: '%d' % v, lambda v: '$%X' % v, lambda v: '$%x' % v, lambda v: '0x%x' % v,
    lambda v: '0X%X' % v, hexi, lambda v: hexi(v).lower(),
    lambda v: '%oQ' % v, lambda v: '%oq' % v, lambda v: '%' + '{:b}'.format(v),
    lambda v: '{:b}B'.format(v), lambda v: '{:b}b'.format(v), lambda v: '0b{:b}'.format(v),
]


def number(v, rng):
    """a constant for 0 <= v < 2**32"""
    return rng.choice(NOTATIONS)(v)


class Nums:
    """spells values, inventing symbols as it goes; prolog()/epilog() define them"""

    def __init__(self, rng, forward=False, prefix='v'):
        self.rng = rng
        self.before = {}
        self.after = {}
        self.forward = forward
        self.prefix = prefix

    def sym(self, v, table):
        n = '%s%s%d' % (self.prefix, 'f' if table is self.after else 'b', len(table))
        for k, x in table.items():
            if x == v and self.rng.random() < .7:
                return k
        table[n] = v
        return n

    def plain(self, v):
        return number(v, self.rng)

    def expr(self, v):
        """text of a non-negative value that does not look parenthesised"""
        q = self.rng.random()
        if v < 0:
            k = self.rng.randrange(1000)
            return self.rng.choice(['-%s' % self.plain(-v), '-%s' % self.sym(-v, self.before), '0-%s' % self.plain(-v),
                                    '%s-%s' % (self.plain(k), self.sym(k - v, self.before)), '~%s' % self.plain(-1 - v)])
        if q < .55:
            return self.plain(v)
        if q < .73:
            return self.sym(v, self.before)
        if q < .75:
            k = self.rng.randrange(0, v + 1)
            return self.rng.choice(['(%s)+(%s)', '(%s) + (%s)', '((%s))+(%s)', '(%s)+%s', '(%s)|(0)+(%s)*(1)']) % (
                self.sym(v - k, self.before), self.plain(k))
        if q < .85:
            k = self.rng.randrange(0, v + 1)
            return '%s+%s' % (self.sym(v - k, self.before), self.plain(k))
        if q < .93:
            k = self.rng.randrange(0, min(1000, (1 << 32) - v))
            return '%s-%s' % (self.sym(v + k, self.before), self.plain(k))
        if self.forward or v > 255:
            return self.plain(v)
        if v in range(33, 127) and chr(v) not in '\'"\\;':
            return "'%s'" % chr(v)
        return 'lo(%s)' % self.plain(v + 256 * self.rng.randrange(256))

    def fexpr(self, v):
        """a value spelled with a symbol defined after its use"""
        r = self.rng
        if v < 0:
            return r.choice(['-%s', '0-%s']) % self.sym(-v, self.after)
        if r.random() < .6:
            return self.sym(v, self.after)
        return r.choice(['%s', '%s', '%s', '0+(%s)', '0|(%s)-0', '1*(%s)/1', '-(-(%s))', '~~(%s)']) % self.apply(
            v, lambda x: self.sym(x & 0xffffffff, self.after), self.plain)

    def apply(self, v, f, c):
        """v >= 0 as an operator applied to f(...) and perhaps c(...), in either order"""
        r = self.rng
        k = r.choice([0, 1, 2, 7, 255, 256, r.randrange(1 << 16)])
        up = r.randrange(0, v + 1)
        sh = r.randrange(0, 15)
        q = r.randrange(19)
        if q in (5, 10) and v > 65535:
            q = 0   # signed
        if q == 0:
            return '%s+%s' % (f(v - up), c(up))
        if q == 1:
            return '%s+%s' % (c(up), f(v - up))
        if q == 2:
            return '%s-%s' % (f(v + k), c(k))
        if q == 3:
            return '%s-%s' % (c(v + k & 0xffffffff), f(k))
        if q == 4:
            return r.choice(['%s*%s' % (f(v), c(1)), '%s*%s' % (c(1), f(v)), '%s*%s' % (c(v), f(1))])
        if q == 5:
            d = r.randrange(1, 300)
            n = v * d + r.randrange(d)
            return r.choice(['%s/%s' % (f(n), c(d)), '%s/%s' % (c(n), f(d))])
        if q == 6:
            return r.choice(['%s|%s' % (f(v & k), c(v & ~k)), '%s|%s' % (c(v & k), f(v & ~k))])
        if q == 7:
            m = v | k
            return r.choice(['%s&%s' % (f(m), c(v | 0xffff0000 | ~m & 0xffff)), '%s&%s' % (c(m), f(v | ~m & 0xffff))])
        if q == 8:
            return r.choice(['%s^%s' % (f(v ^ k), c(k)), '%s^%s' % (c(v ^ k), f(k))])
        if q == 9:
            z = (v & -v).bit_length() - 1 if v else 5
            return r.choice(['%s<<%s' % (f(v >> z), c(z)), '%s<<%s' % (c(v >> z), f(z))])
        if q == 10:
            return r.choice(['%s>>%s' % (f(v << sh | r.randrange(1 << sh)), c(sh)), '%s>>%s' % (c(v << sh), f(sh))])
        if q == 11:
            return '-%s' % f(-v)
        if q == 12:
            return '~%s' % f(~v)
        if q == 13 and v < 256:
            return 'lo(%s)' % f(v + 256 * r.randrange(256))
        if q == 14 and v < 256:
            return 'HI(%s)' % f(v * 256 + r.randrange(256))
        if q == 15 and v < 32:
            return 'bit(%s{%s})' % (c(k), f(v))
        if q == 16:
            return 'addr(%s{%s})' % (f(v), c(3))
        if q == 17:
            return 'Addr(%s{%s})' % (c(v), f(3))
        if q == 18 and v < 32:
            return 'BIT(%s{%s})' % (f(k), c(v))
        return '%s+%s' % (f(v), f(0))

    def prolog(self):
        return ['%s %s %s' % (n, self.rng.choice(['=', 'equ', 'EQU']), number(v, self.rng))
                for n, v in self.before.items()]

    def epilog(self):
        return ['%s %s %s' % (n, self.rng.choice(['=', 'equ', 'EQU']), number(v, self.rng))
                for n, v in self.after.items()]
