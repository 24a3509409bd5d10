"""Random programs together with everything that is known about them.

program(rng, ...) returns a Prog: its lines with label, operation, operand and
comment kept apart (so that layouts can vary), and the truth about each line
computed by this module alone: address, bytes, whether it is an error or a warning.
"""
import enc6502
import enc6800
import encz80
from numtext import number

OPT = '\x02'      # blanks may be put here
CPUS = ['6500', '6502', '65C02', '6800', '6801', '6803', 'Z80']
BIG = {'6800', '6801', '6803'}


class L:
    __slots__ = ('label', 'op', 'arg', 'comment', 'size', 'emit', 'err', 'warn', 'addr', 'data', 'kind', 'refs',
                 'code', 'define', 'scope', 'nocase', 'near', 'var', 'val')

    def __init__(self, kind, op='', arg='', label='', comment='', size=0, emit=None, err=False, warn=False, refs=()):
        self.kind, self.op, self.arg, self.label, self.comment = kind, op, arg, label, comment
        self.size, self.emit, self.err, self.warn, self.refs = size, emit, err, warn, refs
        self.addr = None        # of the first byte, when something is emitted or labelled
        self.data = b''         # the bytes (also in DUMMY sections, where they go nowhere)
        self.code = True
        self.define = None      # (name, fn(env, pc)) for equ
        self.scope = 0
        self.nocase = False
        self.near = None
        self.val = None         # of an assignment
        self.var = size if isinstance(size, str) else None

    def text(self):
        """the usual spelling"""
        if self.kind == 'equ' and self.op == '=':
            t = '%s = %s' % (self.label, self.arg)
        elif self.kind == 'org':
            t = '* = %s' % self.arg
        elif not self.op:
            t = self.label
        else:
            t = '%s %s %s' % (self.label, self.op, self.arg)
        if self.comment:
            t += (' ' if t else '') + ';' + self.comment
        return t.replace(OPT, '').rstrip()


class Sym:
    def __init__(self, name):
        self.name = name
        self.value = None
        self.kind = 'Abs'
        self.used = self.forward = self.defined = self.derived = False
        self.local = name[0] == '.'


class Prog:
    def __init__(self):
        self.lines = []
        self.syms = {}          # upper name or (scope, local name) -> Sym
        self.cpu = None
        self.fmt = None
        self.last = None

    def stream(self):
        return [(x.addr + i & 0xffffffff, b) for x in self.lines if x.code and not x.err for i, b in enumerate(x.data)]

    def errors(self):
        return [i + 1 for i, x in enumerate(self.lines) if x.err]

    def warnings(self):
        return [i + 1 for i, x in enumerate(self.lines) if x.warn]

    def text(self):
        return ''.join(x.text() + '\n' for x in self.lines)

    def table(self):
        """the symbol table that is expected: (mark, value, kind, name)"""
        res = []
        for s in self.syms.values():
            if not s.local and (s.defined or s.kind == 'Macro'):
                m = '?' if not s.used else '^' if s.forward or s.derived else ' '
                res.append((m, None if s.kind == 'Macro' else s.value & 0xffffffff, s.kind, s.name.upper()))
        return sorted(res, key=lambda x: x[3])


COMMENTS = ['', '', '', '', ' note', 'x', ' a "quoted; one', " it's", ' (unbalanced', '; ;', ' lda #5', ' \\1 \\n', ' = * = ']
WORDS = ['loop', 'start', 'ptr', 'count', 'tab', 'msg', 'io', 'tmp', 'buf', 'idx', 'flag', 'acc', 'vec', 'isr', 'puts', 'mul']


class Gen:
    def __init__(self, rng, cpu='?', n=40, low=False, far=False, faults=0.0, warns=0.0, local=True, dummy=True,
                 overlap=True, present=0.0, ds_max=40, comments=True, redefine=True, forward=True, instrs=True,
                 long_asc=40, output=True, branches=True, names=None, undef=True):
        self.rng = rng
        self.p = Prog()
        self.cpu = rng.choice(CPUS) if cpu == '?' else cpu
        self.p.cpu = self.cpu
        self.n = n
        self.low, self.far, self.faults, self.warns = low, far, faults, warns
        self.local, self.dummy, self.overlap, self.present = local, dummy, overlap, present
        self.ds_max, self.comments, self.redefine, self.forward = ds_max, comments, redefine, forward
        self.instrs, self.long_asc, self.output, self.branches = instrs, long_asc, output, branches
        self.undef = undef
        self.names = 0
        self.prefix = names or ''
        self.consts = []         # equ symbols: defined before use
        self.fconsts = []        # to be defined after their uses
        self.labels = []         # names planned as labels, in program order
        self.later = []
        self.redefs = []
        self.lastval = {}        # current value expression of redefinables is only known in layout

    # -- names
    def name(self):
        r = self.rng
        self.names += 1
        q = r.random()
        base = r.choice(WORDS)
        if q < .8:
            n = '%s%d' % (base, self.names)
        elif q < .9:
            n = '%s_%d.%s' % (base.capitalize(), self.names, r.choice(['a', 'end', 'x1']))
        elif q < .95:
            n = '_%s%d%s' % (base, self.names, r.choice(['h', 'b', 'q', 'H']))
        else:
            n = '%s%d%s' % (base, self.names, ''.join(r.choice('abcXYZ_.09') for _ in range(28 - len(base))))
        return self.prefix + n

    def val(self, v):
        return number(v, self.rng)

    # -- references usable in operands: (text, fn(env), refs)
    def ref(self, fwd=True):
        """something whose value the operand needs"""
        r = self.rng
        q = r.random()
        if q < .35:
            v = r.choice([0, 1, 0xff, 0x100, 0x7fff, 0xffff, r.randrange(256), r.randrange(65536)])
            return self.val(v), (lambda env, v=v: v), ()
        names = []
        if self.consts:
            names += [('c', r.choice(self.consts))]
        if self.done:
            names += [('l', r.choice(self.done)), ('l', self.done[-1])]
        if fwd and self.forward and self.todo:
            names += [('f', r.choice(self.todo[:12]))] * 2
        if fwd and self.forward and self.fconsts:
            names += [('f', r.choice(self.fconsts))]
        if self.redefs:
            names += [('r', r.choice(self.redefs))]
        if self.local:
            names += [('.', x) for x in r.sample(self.locdone, min(2, len(self.locdone)))]
            if fwd and self.loctodo:
                names += [('.', self.loctodo[0])] * 2
        if not names:
            v = r.randrange(65536)
            return self.val(v), (lambda env, v=v: v), ()
        k, n = r.choice(names)
        t = r.choice([n, n, n.lower(), n.upper()])
        refs = (n,)
        q = r.random()
        if q < .7:
            return t, (lambda env, n=n: env(n)), refs
        d = r.randrange(1, 9)
        if q < .85:
            return '$ffff&(%s%s+%s%d)' % (t, OPT, OPT, d), (lambda env, n=n, d=d: env(n) + d & 0xffff), refs
        if q < .9:
            return 'lo(%s)' % t, (lambda env, n=n: env(n) & 0xff), refs
        if q < .93:
            return '%s%s-%s%d' % (t, OPT, OPT, 0), (lambda env, n=n: env(n)), refs
        if q < .95:
            return 'HI(%s)' % t, (lambda env, n=n: env(n) >> 8 & 0xff), refs
        return r.choice(['(%s)+(0)', '(0)|(%s)', '0+%s', '(%s|0)-(0)', '(%s)<<0', '1*%s', '%s>>(0)', '~(~%s)', '0^%s', '%s/1']).replace(
            '+', OPT + '+' + OPT) % t, (lambda env, n=n: env(n)), refs

    # -- statements
    def data(self):
        r = self.rng
        big = self.cpu in BIG
        q = r.random()
        if q < .62:
            op = r.choice(['db', 'db', 'dw', 'dw', 'dl', 'ddb']) if self.cpu else 'db'
            w = {'db': 1, 'dw': 2, 'dl': 4, 'ddb': 2}[op]
            k = r.choice([1, 1, 2, 3, 4, r.randrange(1, 13)])
            items = []
            refs = ()
            for _ in range(k):
                if op == 'db':
                    q2 = r.random()
                    if q2 < .75:
                        v = r.randrange(256)
                        items.append((self.val(v), lambda env, v=v: v))
                    elif q2 < .85:
                        c = r.choice("aZ;,'\"()\\ {}+")
                        t = {"'": "'\\''", '"': r.choice(["'\"'", '"\\""']), '\\': "'\\\\'"}.get(c, "'%s'" % c)
                        items.append((t, lambda env, c=c: ord(c)))
                    else:
                        t, f, rf = self.ref()
                        h = r.choice(['lo', 'hi', 'LO', 'Hi'])
                        refs += rf
                        items.append(('%s(%s)' % (h, t), lambda env, f=f, h=h.lower():
                                      (f(env) >> (8 if h == 'hi' else 0)) & 255))
                elif op == 'dl':
                    if r.random() < .6:
                        v = r.randrange(1 << 32)
                        items.append((self.val(v), lambda env, v=v: v))
                    else:
                        t, f, rf = self.ref()
                        refs += rf
                        items.append((t, f))
                else:
                    t, f, rf = self.ref()
                    if t.startswith('.') and self.far:
                        pass
                    refs += rf
                    if self.far:
                        t, f = '(%s)&$ffff' % t, (lambda env, f=f: f(env) & 0xffff)
                    items.append((t, f))
                if sum(len(t) + 1 for t, _ in items) > 150:
                    break
            k = len(items)
            order = 'big' if big else 'little'
            if op == 'ddb':
                order = 'little' if big else 'big'
            arg = (OPT + ',' + OPT).join(t for t, _ in items)
            return L('data', op, arg, size=w * k, refs=refs,
                     emit=lambda env, pc: b''.join((f(env) & ((1 << 8 * w) - 1)).to_bytes(w, order) for _, f in items))
        if q < .8:
            s, b = '', b''
            qq = r.choice('"\'"')
            for _ in range(r.choice([1, 3, 8, r.randrange(1, self.long_asc)])):
                q2 = r.random()
                if q2 < .85:
                    c = r.choice('abcdeXYZ 019;,.()[]{}*+-=$%&#@!?<>/|~^_`:' + ('"' if qq == "'" else "'"))
                    s, b = s + c, b + c.encode()
                else:
                    e, v = r.choice([('\\n', 10), ('\\t', 9), ('\\r', 13), ('\\0', 0), ("\\'", 39), ('\\"', 34), ('\\\\', 92)])
                    s, b = s + e, b + bytes([v])
            return L('data', 'asc', qq + s + qq, size=len(b), emit=lambda env, pc, b=b: b)
        if q < .95:
            k = r.choice([0, 1, 2, 15, 16, 17, 20, 21, r.randrange(self.ds_max)])
            if r.random() < .5:
                return L('data', 'ds', self.val(k), size=k, emit=lambda env, pc, k=k: bytes(k))
            v = r.randrange(256)
            return L('data', 'ds', self.val(k) + OPT + ',' + OPT + self.val(v), size=k,
                     emit=lambda env, pc, k=k, v=v: bytes([v]) * k)
        m = r.choice(['even', 'odd'])
        l = L('data', 'align', m, size='align')
        l.emit = lambda env, pc, m=m: b'\0' if (pc & 1) != (m == 'odd') else b''
        return l

    def instr(self):
        r = self.rng
        if self.cpu == 'Z80':
            return self.instr_z80()
        e = enc6800 if self.cpu in BIG else enc6502
        mns = list(e.ops(self.cpu)) if e is enc6800 else e.mnemonics(self.cpu)
        rel = self.rels()
        for _ in range(50):
            mn = r.choice(mns)
            sh = r.choice(list(e.SHAPES))
            if mn in rel:
                continue
            if e.encode(self.cpu, mn, sh, 5, False) is None and e.encode(self.cpu, mn, sh, 0x1234, False) is None:
                continue
            fmt = e.SHAPES[sh].replace(',', OPT + ',' + OPT)
            if '%s' not in fmt:
                w = e.encode(self.cpu, mn, sh)
                return L('instr', mn.lower(), fmt, size=len(w), emit=lambda env, pc, w=w: w)
            if sh == '#':
                w = e.encode(self.cpu, mn, sh, 5, False)
                if len(w) == 2:
                    v = r.randrange(256)
                    return L('instr', mn.lower(), fmt.replace('%s', self.val(v)), size=2,
                             emit=lambda env, pc, mn=mn, v=v: e.encode(self.cpu, mn, '#', v, False))
                t, f, rf = self.ref()
                return L('instr', mn.lower(), fmt.replace('%s', t), size=3, refs=rf,
                         emit=lambda env, pc, mn=mn, f=f: e.encode(self.cpu, mn, '#', f(env) & 0xffff, False))
            w8, w16 = (e.encode(self.cpu, mn, sh, v, False) for v in (5, 0x1234))
            wf = e.encode(self.cpu, mn, sh, 0x1234, True)
            if w16 is None or wf is None or wf == 'any' or (e is enc6800 and sh == 'e,X'):
                v = r.randrange(256)
                return L('instr', mn.lower(), fmt.replace('%s', self.val(v)), size=len(w8),
                         emit=lambda env, pc, mn=mn, v=v, sh=sh: e.encode(self.cpu, mn, sh, v, False))
            t, f, rf = self.ref()
            l = L('instr', mn.lower(), fmt.replace('%s', t), size='mem', refs=rf)
            l.emit = lambda env, pc, mn=mn, sh=sh, f=f, rf=rf: self.mem(e, mn, sh, f, rf, env)
            return l
        return self.data()

    def mem(self, e, mn, sh, f, rf, env):
        fwd = any(env.forward(n) for n in rf)
        v = 0x1234 if fwd and env.sizing else f(env)
        w = e.encode(self.cpu, mn, sh, v if not 0 <= v < 256 else v, fwd)
        if not 0 <= v < 65536:
            w = e.encode(self.cpu, mn, sh, 0xffff, fwd)
            w = w[:-2] + (v & 0xffff).to_bytes(2, 'big' if self.cpu in BIG else 'little')
        return w

    def rels(self):
        """relative branches of the processor"""
        if self.cpu == 'Z80':
            return {}
        if self.cpu in BIG:
            return {m: c['rel'] for m, c in enc6800.ops(self.cpu).items() if 'rel' in c}
        return {m: c['rel'][0] for m, c in enc6502.OPS.items() if 'rel' in c and c['rel'][1] <= enc6502.LEVEL[self.cpu]}

    BRZ80 = {('djnz', ''): 0x10, ('jr', ''): 0x18, ('jr', 'nz,'): 0x20, ('jr', 'z,'): 0x28, ('jr', 'nc,'): 0x30,
             ('jr', 'c,'): 0x38}

    def branch(self):
        r = self.rng
        cand = self.done[-3:] + self.todo[:3]
        if self.local:
            cand += self.locdone[-2:] + self.loctodo[:2]
        if not cand or r.random() < .15:
            n = None
        else:
            n = r.choice(cand)
        if self.cpu == 'Z80':
            (op, pre), code = r.choice(list(self.BRZ80.items()))
            pre = pre.replace(',', OPT + ',' + OPT)
        else:
            op, code = r.choice(list(self.rels().items()))
            op, pre = op.lower(), ''
        if n is None:
            d = r.randrange(-128, 128)
            return L('instr', op, pre + '*%+d' % (d + 2), size=2, emit=lambda env, pc, c=code, d=d: bytes([c, d & 0xff]))
        l = L('instr', op, pre + n, size=2, refs=(n,))
        l.near = (n, pre, code)
        l.emit = None
        return l

    Z80OPS = None

    def instr_z80(self):
        r = self.rng
        z = encz80
        forms = [('r', x) for x in 'ABCDEHL'] + [('rr', x) for x in ('BC', 'DE', 'HL', 'SP', 'IX', 'IY')] + \
            [('m', x) for x in ('HL', 'BC', 'DE', 'IX', 'IY')] + [('xd', 'IX'), ('xd', 'IY'), ('n', None), ('mn', None)]
        if Gen.Z80OPS is None:
            t = []
            for mn in z.MNEMONICS:
                if mn in z.REL or mn in ('CPDR', 'RST', 'IM', 'BIT', 'SET', 'RES', 'IN', 'OUT'):
                    continue
                for ops in [()] + [(a,) for a in forms] + [(a, b) for a in forms for b in forms]:
                    o = [(k, (v, 5)) if k == 'xd' else (k, 5) if k in ('n', 'mn') else (k, v) for k, v in ops]
                    try:
                        w = z.encode(mn, o)
                    except (KeyError, IndexError):
                        continue
                    if w is not None:
                        t.append((mn, ops, len(w)))
            Gen.Z80OPS = t
        mn, ops, size = r.choice(Gen.Z80OPS)
        wide = mn in ('JP', 'CALL') or (mn == 'LD' and (any(k == 'mn' for k, _ in ops) or ops[0][0] == 'rr'))
        tx, vals, refs = [], [], ()
        for k, v in ops:
            if k in ('r', 'rr'):
                tx.append(v.lower())
                vals.append((k, v))
            elif k == 'm':
                tx.append('(%s%s%s)' % (OPT, v.lower(), OPT))
                vals.append((k, v))
            elif k == 'xd':
                d = r.randrange(-128, 128)
                tx.append('(%s%s%s%s%d%s)' % (v.lower(), OPT, '-' if d < 0 else '+', OPT, abs(d), OPT))
                vals.append((k, (v, d)))
            elif wide:
                t, f, rf = self.ref()
                refs += rf
                tx.append('(%s)' % t if k == 'mn' else t)
                vals.append((k, f))
            else:
                v = r.randrange(256)
                tx.append('(%s)' % self.val(v) if k == 'mn' else self.val(v))
                vals.append((k, v))

        def emit(env, pc):
            o = [(k, v(env) & 0xffff) if callable(v) else (k, v) for k, v in vals]
            return z.encode(mn, o)
        return L('instr', mn.lower(), (OPT + ',' + OPT).join(tx), size=size, refs=refs, emit=emit)

    def fault(self):
        r = self.rng
        bad = [('frobnicate', '5'), ('db', 'undefd%d' % r.randrange(1000)), ('dw', '5+'), ('db', '12A'), ('ds', '-1'),
               ('asc', 'abc'), ('asc', '5'), ('align', 'both'), ('dl', '(5'), ('dl', '1)'), ('dw', '$G'),
               ('code', '5'), ('fail', 'told so'), ('fail', ''), ('list', 'maybe'), ('db', "'\\q'"), ('db', ''),
               ('output', 'ELF'), ('include', 'no/such/file'), ('dw', '5 5'), ('dl', '$100000000'), ('skip', 'hl5'),
               ('else', '5'), ('endc', 'x'), ('page', '5'), ('page', '5,5'), ('db', 'undef'), ('dl', "'abcde'")]
        if not self.undef:
            # in the first pass an undefined symbol may still come: room is made for it
            bad = [b for b in bad if not b[1].startswith('undef')]
        op, arg = r.choice(bad)
        if op in ('else', 'endc'):
            op, arg = 'db', '#5'
        return L('fault', op, arg, err=True)

    def warner(self):
        r = self.rng
        q = r.randrange(4)
        big = self.cpu in BIG
        if q == 0:
            v = r.choice([256, 257, 0xffff, 0x10000, 999999])
            return L('data', 'db', self.val(v), size=1, warn=True, emit=lambda env, pc: bytes([v & 255]))
        if q == 1 and self.cpu:
            v = r.choice([0x10000, 0x12345, 0xffffffff])
            return L('data', 'dw', self.val(v), size=2, warn=True,
                     emit=lambda env, pc: (v & 0xffff).to_bytes(2, 'big' if big else 'little'))
        v = r.randrange(256)
        return L('data', 'db', '(%s)' % self.val(v), size=1, warn=True, emit=lambda env, pc: bytes([v]))

    def presentation(self):
        r = self.rng
        q = r.random()
        if q < .5:
            return L('present', r.choice(['list', 'mlist', 'clist', 'ilist']), r.choice(['on', 'off']))
        if q < .7:
            return L('present', 'skip', str(r.randrange(0, 12)))
        if q < .9:
            return L('present', 'page', '')
        return L('present', 'list', 'on')

    # -- the program
    def make(self):
        r = self.rng
        p = self.p
        self.done, self.todo, self.locdone, self.loctodo = [], [], [], []
        out = p.lines
        # plan: which positions carry labels, so that forward references know the names
        plan = []
        for i in range(self.n):
            q = r.random()
            lab = None
            if q < .3:
                lab = self.name()
            elif q < .4 and self.local:
                lab = '.'
            plan.append(lab)
        self.todo = [x for x in plan if x and x != '.']
        nf = r.randrange(0, 4) if self.forward else 0
        self.fconsts = [self.name() for _ in range(nf)]
        fdefs = list(self.fconsts)
        if self.comments and r.random() < .5:
            out.append(L('comment', comment=r.choice(COMMENTS) or ' head'))
        if self.cpu:
            out.append(L('cpu', 'cpu', self.cpu))
        for _ in range(r.randrange(1, 5)):
            self.equ(out)
        if self.output and r.random() < .4:
            p.fmt = r.choice(['S', 'H'])
            out.append(L('output', 'output', {'S': 'SCODE', 'H': 'HEX'}[p.fmt]))
        else:
            p.fmt = 'H' if self.cpu == 'Z80' else 'S'
        self.org(out, True)
        i = 0
        self.scope = 0
        self.newscope(plan, 0)
        while i < self.n:
            q = r.random()
            if self.local and q < .04 or (self.dummy and q < .05):
                d = self.dummy and r.random() < .35
                out.append(L('scope', 'dummy' if d else 'code'))
                self.scope += 1
                self.newscope(plan, i)
                continue
            if q < .08:
                self.org(out)
                continue
            if q < .12:
                self.equ(out)
                continue
            if q < .14 and fdefs and i > self.n // 3:
                self.fdef(out, fdefs)
                continue
            if q < .20:
                out.append(L('comment', comment=r.choice(COMMENTS) if self.comments else ''))
                continue
            if r.random() < self.faults:
                out.append(self.fault())
                continue
            if r.random() < self.present:
                out.append(self.presentation())
                continue
            if r.random() < self.warns:
                l = self.warner()
            else:
                q = r.random()
                if self.cpu and self.instrs and q < .5:
                    l = self.branch() if self.branches and r.random() < .2 else self.instr()
                elif q < .93 or not plan[i]:
                    l = self.data()
                else:
                    l = L('label')
            lab = plan[i]
            if lab == '.':
                lab = self.loctodo.pop(0)
                self.locdone.append(lab)
                l.label = lab
            elif lab:
                self.todo.remove(lab)
                self.done.append(lab)
                l.label = lab
            l.comment = r.choice(COMMENTS) if self.comments and r.random() < .4 else ''
            out.append(l)
            i += 1
            # the next scope may come at any time: its planned local labels follow the lines
        while fdefs:
            self.fdef(out, fdefs)
        self.layout()
        return p

    def newscope(self, plan, i):
        """local names of the coming lines; a later scope drops what was not reached"""
        r = self.rng
        k = sum(1 for x in plan[i:] if x == '.')
        pool = ['.1', '.2', '.loop', '.a', '.x_y', '.3', '.B', '.end', '.4', '.5', '.6', '.7', '.8']
        r.shuffle(pool)
        while len(pool) < k:
            pool.append('.n%d' % len(pool))
        self.locdone = []
        self.loctodo = pool[:k]

    def org(self, out, first=False):
        r = self.rng
        if self.far:
            a = r.choice([0, 0x10, 0xfff0, 0xffff, 0x10000, 0x1fff8, 0xfffff0, 0x1000000, 0x7ffffff0, 0x80000000,
                          0xfffe0000, r.randrange(1 << 16), r.randrange(1 << 24), r.randrange(0xfffe0000)])
        elif self.low and r.random() < .5:
            a = r.randrange(0x100)
        else:
            a = r.choice([0x200, 0x1000, 0x8000, 0xc000, r.randrange(0x200, 0xe000)])
        q = r.random()
        if first or q < .5 or self.far:
            l = L('org', arg=self.val(a))
            l.define = ('*', lambda env, pc: a)
        elif q < .7:
            k = r.choice([0, 1, 2, 16, 100, 255])
            l = L('org', arg='*' + OPT + '+' + OPT + str(k))
            l.define = ('*', lambda env, pc: pc + k)
        elif q < .85 and self.overlap:
            k = r.choice([1, 2, 3])
            l = L('org', arg='*-%d' % k)
            l.define = ('*', lambda env, pc: pc - k)
        else:
            l = L('org', arg='(*+15)&$fffffff0')
            l.define = ('*', lambda env, pc: (pc + 15) & 0xfffffff0)
        out.append(l)

    def equ(self, out):
        r = self.rng
        op = r.choice(['=', 'equ'])
        if self.redefs and r.random() < .3:
            n = r.choice(self.redefs)
        else:
            n = self.name()
        q = r.random()
        if q < .6:
            v = r.choice([0, 1, 0x7f, 0xff, 0x100, r.randrange(256), r.randrange(65536)])
            t, f, rf = self.val(v), (lambda env: v), ()
        elif q < .7 and len(out) > 8:
            t, f, rf = '*', (lambda env: env.pc), ()
        else:
            t, f, rf = self.ref(fwd=False)
        l = L('equ', op, t, label=n, refs=rf)
        l.define = (n, lambda env, pc: f(env))
        out.append(l)
        if n not in self.redefs:
            (self.redefs if self.redefine and r.random() < .3 else self.consts).append(n)

    def fdef(self, out, fdefs):
        r = self.rng
        n = fdefs.pop(0)
        self.fconsts.remove(n)
        v = r.choice([0, 1, 0xff, 0x100, r.randrange(65536)])
        l = L('equ', r.choice(['=', 'equ']), self.val(v), label=n)
        l.define = (n, lambda env, pc: v)
        out.append(l)
        self.consts.append(n)

    # -- the truth
    def layout(self):
        self.p.stable = layout(self.p)


class Env:
    def __init__(self, p):
        self.p = p
        self.sizing = True
        self.scope = 0
        self.pc = 0
        self.cur = {}
        self.taint = set()      # symbols computed from forward references count as such

    def key(self, n):
        return (self.scope, n.upper()) if n[0] == '.' else n.upper()

    def __call__(self, n):
        k = self.key(n)
        if k in self.cur:
            return self.cur[k]
        s = self.p.syms[k]
        if s.value is None:
            if self.sizing:
                return 0x1234
            raise KeyError(n)
        return s.value

    def forward(self, n):
        return self.p.syms[self.key(n)].forward or self.key(n) in self.taint


def key(x, n):
    return (x.scope, n.upper()) if n[0] == '.' else n.upper()


def layout(p):
    """addresses, values and bytes of every line; out of reach branches and references
    to local labels that their scope lacks are rewritten"""
    scope = 0
    defs = {}
    for i, x in enumerate(p.lines):
        if x.kind == 'scope':
            scope += 1
        x.scope = scope
        if x.label and not x.err:
            defs.setdefault(key(x, x.label), i)
    for x in p.lines:
        if any(key(x, n) not in defs for n in x.refs):
            # the label never came in this scope
            assert not x.define
            plainly(x, 'db', '0', b'\0')
    for _ in range(6):
        if layout1(p, defs):
            return True
    return False


def plainly(x, op, arg, data):
    x.op, x.arg, x.size, x.refs, x.near, x.var, x.warn = op, arg, len(data), (), None, None, False
    x.emit = lambda env, pc: data


def layout1(p, defs):
    p.syms = {}
    for i, x in enumerate(p.lines):
        if x.label and not x.err:
            p.syms.setdefault(key(x, x.label), Sym(x.label))
    for i, x in enumerate(p.lines):
        for n in x.refs:
            s = p.syms[key(x, n)]
            s.used = True
            if defs[key(x, n)] > i or (defs[key(x, n)] == i and x.define):
                s.forward = True
    env = Env(p)
    # sizes and addresses
    pc = None
    code = True
    for x in p.lines:
        env.scope = x.scope
        if x.kind == 'scope':
            code = x.op.lower() == 'code'
        x.code = code
        x.data = b''
        env.pc = x.addr = pc
        if x.err:
            continue
        if x.label and x.kind != 'equ':
            s = p.syms[key(x, x.label)]
            s.value = env.cur[key(x, x.label)] = pc
            s.defined = True
        if x.define:
            n, f = x.define
            v = f(env, pc)
            if n == '*':
                x.addr = pc = v & 0xffffffff
            else:
                s = p.syms[key(x, n)]
                s.value = env.cur[key(x, n)] = v
                s.defined = True
                if any(env.forward(y) for y in x.refs):
                    env.taint.add(key(x, n))
        elif x.emit or x.near:
            if x.var:
                x.size = len(x.emit(env, pc))
            pc = (pc + x.size) & 0xffffffff
    p.last = pc
    # bytes; symbols not yet reached have their final value
    for k in env.taint:
        p.syms[k].derived = True
    env.cur = {}
    env.taint = set()
    env.sizing = False
    final = {k: s.value for k, s in p.syms.items()}
    stable = True
    for x in p.lines:
        env.scope = x.scope
        env.pc = x.addr
        if x.err:
            continue
        if x.label and x.kind != 'equ':
            env.cur[key(x, x.label)] = final[key(x, x.label)]
        if x.near:
            n, pre, c = x.near
            d = env(n) - (x.addr + 2)
            if -128 <= d <= 127:
                x.data = bytes([c, d & 0xff])
            else:
                plainly(x, x.op, pre + '*', bytes([c, 0xfe]))
                stable = False
        elif x.define:
            n, f = x.define
            if n != '*':
                x.val = env.cur[key(x, n)] = f(env, x.addr)
                if any(env.forward(y) for y in x.refs):
                    env.taint.add(key(x, n))
        elif x.emit:
            x.data = x.emit(env, x.addr)
            if len(x.data) != x.size:
                stable = False
    return stable


def program(rng, **k):
    """a Prog whose truth is stable"""
    while True:
        p = Gen(rng, **k).make()
        if p.stable and consistent(p):
            return p


def consistent(p):
    """a symbol that is defined twice is never used before its first definition, labels
    are defined once, and addresses stay inside 32 bits"""
    seen = {}
    for x in p.lines:
        if x.label and not x.err:
            k = key(x, x.label)
            seen.setdefault(k, []).append(x.kind)
    for k, v in seen.items():
        if len(v) > 1 and (any(q != 'equ' for q in v) or p.syms[k].forward):
            return False
    for x in p.lines:
        if x.addr is not None and x.addr + len(x.data) > 1 << 32:
            return False
        if x.addr is not None and not 0 <= x.addr < 1 << 32:
            return False
    return True
