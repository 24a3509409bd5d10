"""Workloads about bytes and addresses, shared by C03 and C04.

Each returns (text, stream, fmt): the source, the exact (address, byte) sequence and
the format, 'S' or 'H'."""
import gen
from numtext import number

ORGS = [0, 1, 0xff, 0x100, 0xfff8, 0xffff, 0x10000, 0x10001, 0xfffff0, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000,
        0xff000000, 0xfffffff0, 0xffff, 0x12345678, 0x0001fff7, 0xfffe, 0x00ff00ff]


class Builder:
    def __init__(self, rng, cpu, fmt=None):
        self.rng, self.cpu = rng, cpu
        self.out = []
        self.stream = []
        self.code = True
        self.pc = None
        self.v = rng.randrange(256)
        if cpu:
            self.out.append(' cpu %s' % cpu)
        if fmt:
            self.out.append(' output %s' % {'S': 'scode', 'H': 'hex'}[fmt])
        self.fmt = fmt or ('H' if cpu == 'Z80' else 'S')

    def org(self, a):
        a &= 0xffffffff
        q = self.rng.random()
        if self.pc is not None and q < .4:
            self.out.append('* = *%+d' % (a - (self.pc & 0xffffffff)))
        else:
            self.out.append('* = %s' % number(a, self.rng))
        self.pc = a

    def put(self, data):
        if self.code:
            self.stream += [(self.pc + i, b) for i, b in enumerate(data)]
        self.pc += len(data)

    def room(self, k):
        return self.pc + k <= 1 << 32

    def bytes(self, k):
        """k bytes, no two neighbours equal"""
        if not self.room(k):
            return
        d = []
        for _ in range(k):
            self.v = (self.v + 1 + self.rng.randrange(3)) & 255
            d.append(self.v)
        i = 0
        while i < k:
            n = min(k - i, self.rng.choice([1, 2, 4, 8, 16, 17, 30]))
            part = d[i:i + n]
            q = self.rng.random()
            if q < .15 and n == 4 and self.cpu:
                self.out.append(' dl %s' % number(int.from_bytes(bytes(part), 'big' if self.cpu in gen.BIG else 'little'), self.rng))
            elif q < .4 and all(32 < b < 127 and chr(b) not in '\\"\'' for b in part):
                self.out.append(' asc "%s"' % ''.join(map(chr, part)))
            else:
                self.out.append(' db ' + ','.join(map(str, part)))
            i += n
        self.put(bytes(d))

    def fill(self, k):
        if not self.room(k):
            return
        v = self.rng.randrange(256)
        self.out.append(' ds %s,%s' % (number(k, self.rng), number(v, self.rng)))
        self.put(bytes([v]) * k)

    def section(self, code):
        self.out.append(' code' if code else ' dummy')
        self.code = code

    def align(self):
        m = self.rng.choice(['even', 'odd'])
        if self.room(1):
            self.out.append(' align ' + m)
            if (self.pc & 1) != (m == 'odd'):
                self.put(b'\0')

    def text(self):
        if self.fmt and self.out[:2] and self.rng.random() < .25:
            # OUTPUT directives anywhere: the last one counts
            self.out = [x for x in self.out if not x.startswith(' output')]
            at = sorted(self.rng.randrange(len(self.out) + 1) for _ in range(self.rng.randrange(1, 4)))
            for n, i in enumerate(reversed(at)):
                f = self.fmt if n == 0 else self.rng.choice('SH')
                self.out.insert(i, ' output ' + {'S': 'scode', 'H': 'hex'}[f])
        return '\n'.join(self.out) + '\n'


STEPS = ['b1', 'b2', 'b15', 'b16', 'b17', 'b32', 'o0', 'o+1', 'o-1', 'o+16', 'o-16', 'o+big', 'o-back', 'far', 'dummy', 'code',
         'label', 'ds0', 'ds16', 'align', 'dummy3']


def step(b, s):
    if s[0] == 'b':
        b.bytes(int(s[1:]))
    elif s == 'o+big':
        b.org(min(b.pc + 0x10000, 0xfffffff0))
    elif s == 'o-back':
        b.org(b.stream[0][0] if b.stream else b.pc)
    elif s == 'far':
        b.org(b.rng.choice(ORGS))
    elif s[0] == 'o':
        b.org(max(0, min(b.pc + int(s[1:]), 0xffffffff)))
    elif s == 'dummy':
        b.section(False)
    elif s == 'code':
        b.section(True)
    elif s == 'label':
        b.out.append('l%d' % len(b.out))
    elif s == 'ds0':
        b.out.append(' ds 0')
    elif s == 'ds16':
        b.fill(16)
    elif s == 'align':
        b.align()
    elif s == 'dummy3':
        b.section(False)
        b.bytes(3)
        b.section(True)


def steps(rng, seq, cpu, fmt, org):
    """a sequence of steps that each look at one edge, framed by bytes"""
    b = Builder(rng, cpu, fmt)
    b.org(org)
    for s in seq:
        step(b, s)
    b.section(True)
    b.bytes(1)
    return b.text(), b.stream, b.fmt


def pairs(rng, cpu, fmt, org, n):
    """the object when n bytes are followed by a gap, an overlap or a wall, then more"""
    return steps(rng, ['b%d' % n, rng.choice(STEPS), 'b%d' % rng.choice([1, 2, 15, 16, 17, 33]), rng.choice(STEPS),
                       'b%d' % rng.choice([1, 16, 20])], cpu, fmt, org)


def big(rng, cpu, fmt):
    b = Builder(rng, cpu, fmt)
    b.org(rng.choice([0, 0xff00, 0xfffff, 0xfeff00, 0x200]))
    for _ in range(rng.randrange(1, 4)):
        b.fill(rng.choice([256, 4096, 65535, 65536, 70000, 131072 + 5]))
        b.bytes(rng.randrange(40))
    return b.text(), b.stream, b.fmt


def program(rng, k):
    kw = {}
    if k % 3 == 0:
        kw = dict(cpu=rng.choice([None, None, '6502', '6800', 'Z80']), far=True, ds_max=rng.choice([40, 300]), instrs=False)
    elif k % 3 == 1:
        kw = dict(low=True, ds_max=rng.choice([20, 200]))
    p = gen.program(rng, n=rng.choice([5, 20, 40, 100]), **kw)
    return p.text(), p.stream(), p.fmt


def work(rng, item):
    kind = item[0]
    if kind == 'prog':
        return program(rng, item[1])
    cpu = rng.choice([None, None, '6502', '6800', 'Z80', '65C02'])
    if kind == 'seq':
        return steps(rng, item[1], cpu, item[2], rng.choice(ORGS[:15]))
    if kind == 'pair':
        return pairs(rng, cpu, item[2], item[1], rng.randrange(1, 34))
    if kind == 'big':
        return big(rng, cpu, rng.choice(['S', 'H', None]))
    raise KeyError(kind)


def items(c, progs, pairn, bign, seqlen):
    import itertools
    it = [('prog', k) for k in range(progs)]
    for k in range(1, seqlen + 1):
        for s in itertools.product(STEPS, repeat=k):
            it.append(('seq', s, 'SH'[len(it) % 2]))
    for k in range(pairn):
        for o in ORGS:
            for f in 'SH':
                it.append(('pair', o, f, k))
    it += [('big', k) for k in range(bign)]
    return it
