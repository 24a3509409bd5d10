"""Random programs with macros, and the flat programs they stand for, by an expander
of its own."""
import re
from fold import split
from numtext import number

SAFE = 'abcXYZ 0189.:!?<>=+-*/&^%$@#_[]{}|~`'


# names that begin like directives
KEYS = ['MACROK1', 'macros', 'MACRO_', 'ENDMARK', 'if1', 'EQUAL', 'elsewhere', 'db1', 'Macro.x']


def subst(line, args, raw):
    """the text of a macro line with the operands put in"""
    out, i = '', 0
    while i < len(line):
        c = line[i]
        if c == '\\' and i + 1 < len(line):
            d = line[i + 1]
            if d == '#':
                out += str(len(args))
                i += 2
                continue
            if d == '*':
                out += raw
                i += 2
                continue
            if d in '123456789':
                k = int(d) - 1
                out += args[k] if k < len(args) else ''
                i += 2
                continue
        out += c
        i += 1
    return out


class Macro:
    def __init__(self, name):
        self.name = name
        self.params = []        # kinds
        self.minargs = 0
        self.body = []          # lines, or ('if', cond, then, else) or ('exitm',) or ('call', macro, argtexts, label)
        self.height = 1
        self.emits = 0


class Work:
    def __init__(self, rng, cpu, faults=0.0, nmac=5, ncalls=12):
        self.rng, self.cpu, self.faults = rng, cpu, faults
        self.macros = []
        self.calls = 0
        self.uniq = 0
        self.stats = {}
        self.maxheight = 0
        self.truncated = 0
        self.nmac, self.ncalls = nmac, ncalls

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- operands of a kind
    def operand(self, kind):
        r = self.rng
        if kind == 'n':
            q = r.random()
            if q < .5:
                return number(r.randrange(256), r)
            if q < .65:
                return r.choice(['(%d+%d)*2', '%d + %d', '(%d*2)+(%d)', 'lo(%d+%d)', 'HI ( %d*%d )']) % (r.randrange(60), r.randrange(60))
            if q < .8:
                return r.choice(["'a'", "','", "' '", "'('", "')'", "'\"'", '"x"', "';'", "'#'", "'\\''"])
            if q < .9:
                return r.choice(['k0', 'K1', 'k2', 'k3'] + KEYS)
            return r.choice(['later1', 'LATER2&255', 'lo(later1)'])
        if kind == 's':
            t = ''.join(r.choice(SAFE + ",,;;()''") for _ in range(r.choice([1, 2, 5, 12])))
            return '"%s"' % t if r.random() < .7 else "'%s'" % t.replace("'", '"')
        if kind == 't':       # plain text inside quotes
            t = ''.join(r.choice('abcXYZ0189.:!?<>=+-*/&^%$@#_[]{}|~`') for _ in range(r.choice([1, 2, 5, 12]))).lstrip('=') or 'e'
            if r.random() < .2:
                t += '(a,b)'
            elif r.random() < .2:
                t = 'a b  c' + t
            return t
        if kind == 'l':
            self.uniq += 1
            return r.choice(['u%d', 'Un%d', 'u_%d.x']) % self.uniq
        if kind == 'o':
            return r.choice(['db', 'DB', 'Db'])
        if kind == 'h':
            return '%02x' % r.randrange(256)
        raise KeyError(kind)

    KINDS = 'nnnsstlloh'

    def define(self, i):
        r = self.rng
        m = Macro(r.choice(['m%d', 'Mac_%d', 'do%d.it', 'MACRO%d', '_%d', 'x.%d']) % i)
        m.params = [r.choice(self.KINDS) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 9]))]
        m.minargs = len(m.params) if r.random() < .6 else r.randrange(len(m.params) + 1)
        m.body = self.body(m, m.minargs, 0, r.choice([1, 2, 4, 7]))
        lower = [x.height for x in self.called]
        m.height = 1 + max(lower, default=0)
        self.macros.append(m)

    def emitter(self, m, have):
        """a line which uses the first `have` operands"""
        r = self.rng
        ps = [(j + 1, k) for j, k in enumerate(m.params[:have])]
        lab = ''
        ls = [j for j, k in ps if k == 'l' and j not in m.labelused]
        if ls and r.random() < .6:
            j = r.choice(ls)
            m.labelused.add(j)
            lab = '\\%d' % j
        op = 'db'
        os_ = [j for j, k in ps if k == 'o']
        if os_ and r.random() < .6:
            op = '\\%d' % r.choice(os_)
        q = r.random()
        if q < .5:
            items = []
            for _ in range(r.choice([1, 1, 2, 3])):
                c = [('\\%d' % j) for j, k in ps if k == 'n'] + [('$\\%d' % j) for j, k in ps if k == 'h'] + \
                    ['lo($\\%d\\%d)' % (j, j) for j, k in ps if k == 'h'] + ['\\#', '\\#+5', str(r.randrange(256))]
                items.append(r.choice(c))
            return '%s %s %s' % (lab, op, ','.join(items))
        if q < .8:
            c = ['\\%d' % j for j, k in ps if k == 's'] + ['"\\%d"' % j for j, k in ps if k == 't'] + \
                ["'<\\%d>\\%d'" % (j, j) for j, k in ps if k == 't'] + ['"\\#"', '"a\\0b\\n\\\\n\\"\\t"', '"x;y"']
            return '%s asc %s' % (lab, r.choice(c))
        if q < .88 and m.params and all(k in 'nh' for k in m.params) and 'h' not in m.params and m.minargs:
            return '%s db \\*' % lab
        if q < .94:
            m.nloc += 1
            n = r.choice(['.a', '.loop', '.1', '.b'])
            if n in m.locals:
                return '%s db %s-%s' % (lab, n, n)
            m.locals.add(n)
            return '%s db %d' % (n, r.randrange(256)) if not lab else '%s db 0' % lab
        return '%s ds %d,\\#' % (lab, r.randrange(1, 5))

    def body(self, m, have, depth, n):
        r = self.rng
        if depth == 0:
            m.labelused, m.nloc, m.locals = set(), 0, set()
            self.called = []
        res = []
        for _ in range(n):
            q = r.random()
            if q < .55:
                l = self.emitter(m, have)
                if depth and (re.match(r'[\\.]', l) and l[0] == '.'):
                    # a local label in a branch may stay undefined
                    l = ' db 7'
                res.append(l + r.choice(['', '', '', ' ; note \\1 "', ';x', '   ; , endc']))
            elif q < .6:
                res.append(r.choice(['', '; only a comment', '   ', ';']))
            elif q < .75 and depth < 3:
                k = r.randrange(0, 10)
                op = r.choice(['=', '<>', '>', '<', '>=', '<='])
                fn = {'=': lambda c, k: c == k, '<>': lambda c, k: c != k, '>': lambda c, k: c > k, '<': lambda c, k: c < k,
                      '>=': lambda c, k: c >= k, '<=': lambda c, k: c <= k}[op]
                # in the true branch of \#>=k at least k operands are there
                h1, h2 = have, have
                if op in ('=', '>='):
                    h1 = max(have, min(k, len(m.params)))
                elif op == '>':
                    h1 = max(have, min(k + 1, len(m.params)))
                elif op == '<>' or op == '<':
                    h2 = max(have, min(k, len(m.params)))
                elif op == '<=':
                    h2 = max(have, min(k + 1, len(m.params)))
                save = set(m.labelused)
                a = self.body(m, h1, depth + 1, r.randrange(0, 3))
                m.labelused |= save
                b = self.body(m, h2, depth + 1, r.randrange(0, 3)) if r.random() < .6 else None
                res.append(('if', (fn, op, k), a, b))
            elif q < .82 and depth:
                res.append(('exitm',))
                if r.random() < .7:
                    break
                res.append(' frob never')
            elif q < .84 and not depth:
                res.append(('exitm',))
            elif self.macros and self.macros[-1].height < 8:
                c = [x for x in self.macros if x.height <= 7]
                if c:
                    x = r.choice(c[-3:])
                    self.called.append(x)
                    k = r.randrange(x.minargs, len(x.params) + 1)
                    args = []
                    for kind in x.params[:k]:
                        mine = [j for j, kk in enumerate(m.params[:have]) if kk == kind and kind not in 'l']
                        if kind == 'l':
                            # a fresh label for every expansion: made of one of ours
                            mine = [j for j, kk in enumerate(m.params[:have]) if kk == 'l']
                            if not mine:
                                break
                            m.nloc += 1
                            args.append('\\%d_%d' % (mine[0] + 1, m.nloc))
                        elif mine and r.random() < .7:
                            args.append('\\%d' % (r.choice(mine) + 1))
                        else:
                            args.append(self.operand(kind))
                    if len(args) >= x.minargs:
                        res.append(('call', x, args))
        return res

    # -- text of the definition
    def text(self, m):
        r = self.rng
        out = ['%s%s%s' % (m.name, r.choice([' ', '\t', '  ']), r.choice(['macro', 'MACRO', 'Macro ; def']))]

        def rec(b):
            for x in b:
                if isinstance(x, str):
                    out.append(x)
                elif x[0] == 'if':
                    out.append(r.choice([' if ', '\tIF ']) + '\\#%s%d' % x[1][1:])
                    rec(x[2])
                    if x[3] is not None:
                        out.append(r.choice([' else', ' ELSE ; \\2']))
                        rec(x[3])
                    out.append(r.choice([' endc', ' ENDC']))
                elif x[0] == 'exitm':
                    out.append(r.choice([' exitm', '\tExitM', ' exitm ; done']))
                else:
                    out.append(' %s %s' % (r.choice([x[1].name, x[1].name.lower()]), ','.join(x[2])))
        rec(m.body)
        out.append(r.choice([' endm', '\tENDM', ' EndM ; end']))
        return out

    # -- the flat meaning
    def expand(self, m, args, raw, level=1):
        self.calls += 1
        self.maxheight = max(self.maxheight, level)
        me = self.calls
        out = []

        class Exit(Exception):
            pass

        def rec(b):
            for x in b:
                if isinstance(x, str):
                    t = subst(cut(x), args, raw)
                    out.append(rename(t, me))
                elif x[0] == 'if':
                    fn, op, k = x[1]
                    rec(x[2] if fn(len(args), k) else x[3] or [])
                elif x[0] == 'exitm':
                    self.note('exitm')
                    raise Exit()
                else:
                    t = ','.join(subst(a, args, raw) for a in x[2]).strip()
                    out.extend(self.expand(x[1], parts(t), t, level + 1))
        try:
            rec(m.body)
        except Exit:
            pass
        return out

    def build(self):
        r = self.rng
        self.called = []
        for i in range(self.nmac):
            self.define(i)
        head = [' cpu %s' % self.cpu, '* = $1000'] + ['k%d = %d' % (i, r.randrange(256)) for i in range(4)] + \
            ['%s = %d' % (n, r.randrange(256)) for n in KEYS]
        prog, flat = list(head), list(head)
        for m in self.macros:
            prog += self.text(m)
        for _ in range(self.ncalls):
            q = r.random()
            if q < .2:
                l = ' db %d' % r.randrange(256)
                prog.append(l)
                flat.append(l)
                continue
            if q < .2 + self.faults:
                l = r.choice([' db nosuch', ' frob', ' db 1,', ' db 12A'])
                prog.append(l)
                flat.append(l)
                continue
            m = r.choice(self.macros)
            k = r.randrange(m.minargs, len(m.params) + 1)
            args = [self.operand(kind) for kind in m.params[:k]]
            if self.faults and args and r.random() < self.faults:
                args[r.randrange(len(args))] = r.choice(['undef1', '5 5', "'ab", '12A', '"'])
                if parts(', '.join(args)) is None:
                    continue
            t = r.choice([',', ', ', ' , ', ',  ']).join(args)
            lab = ''
            if r.random() < .25:
                self.uniq += 1
                lab = 'at%d' % self.uniq
                flat.append(lab)
            n0 = len(flat)
            flat += self.expand(m, parts(t), t)
            self.note('calls')
            call = '%s %s %s%s' % (lab, r.choice([m.name, m.name.upper(), m.name.lower()]), t, r.choice(['', '', ' ; c', ' ;"']))
            call = call.rstrip() if not lab else call
            w = r.random()
            if w < .1 and not lab:
                prog += [' if 1', call, ' else', call, ' endc']
            else:
                prog.append(call)
            del n0
        tail = ['later1 = 77', 'later2 = $1234']
        return prog + tail, flat + tail


def parts(t):
    """the operands of a call"""
    if not t:
        return []
    return split(t)


def cut(line):
    """without the comment"""
    q = ''
    i = 0
    while i < len(line):
        c = line[i]
        if q:
            if c == '\\':
                i += 1
            elif c == q:
                q = ''
        elif c in '\'"':
            q = c
        elif c == ';':
            return line[:i].rstrip()
        i += 1
    return line.rstrip()


def rename(t, n):
    """a local label of expansion n, spelled as a global one"""
    m = re.match(r'(\.\w+)( .*)', t)
    if m:
        return 'zq%d_%s%s' % (n, m.group(1)[1:], m.group(2))
    return re.sub(r'(?<=db )\.(\w+)-\.(\w+)$', r'zq%d_\1-zq%d_\2' % (n, n), t)
