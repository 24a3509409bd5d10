"""Rewrites a flat program with conditionals, include files and macros that must not
change what it means."""
import re
from gen import key
from numtext import number


def split(arg):
    """top level commas, the way operands are separated"""
    res, cur, q, par, i = [], '', '', 0, 0
    while i < len(arg):
        c = arg[i]
        if q:
            if c == '\\' and i + 1 < len(arg):
                cur += arg[i:i + 2]
                i += 2
                continue
            if c == q:
                q = ''
        elif c in '\'"':
            q = c
        elif c == '(':
            par += 1
        elif c == ')':
            par -= 1
        elif c == ',' and par == 0:
            res.append(cur.strip())
            cur = ''
            i += 1
            continue
        cur += c
        i += 1
    res.append(cur.strip())
    return res if not q and par == 0 else None


def balanced(t):
    return split(t) is not None


TRUE = ['1', '2-1', '5>3', '3<5', '4=4', '4==4', '4>=4', '4<=4', '4!=5', '4<>5', '$ff > 1', '-1<0', '~0', '1 = 1',
        "'a'='a'", '0<$7fffffff', '-1', '3>=2', '2<=3', '$80000000<0', 'hi($1234)=$12', '(1)+0=1', '1+1==2']
FALSE = ['0', '', '1-1', '3>5', '5<3', '4=5', '4==5', '3>=4', '5<=4', '4!=4', '4<>4', '-1>0', "'a'='b'", '0>$7fffffff',
         'lo($100)', '1=2', '0<-1', '$80000000>0', '5&2', '1 <> 1']

JUNK = [' frob 1,2', 'lab%d frob', ' db undefined%d', ' db (((', " db 'x", ' asc "open', 'x y z t', ' include nosuch/file',
        ' cpu 8086', ' cpu Z80', ' fail never', ' ds -1', ' ds 100', 'dup db 1', 'dup db 2', '* = $9999', ' output HEX', ' output x',
        ' code', ' dummy', ' list off', 'lab%d equ 77', '12bad = 5', '= 5', ': : :', ' db 999', ' lda #$999,x,y', '\\1\\2', '; comment',
        '', ' page 5,5', ' nam x', ' db 1/0', 'zz = nosuch', '.loc db 1', ' exitm', ' dl $fffffffff', ' align x', ' page',
        ' skip 5', '** = 5', ' ld a,(hl', ' fail', " db ''''", ' if3 5', ' elsey', 'a = b = c', ' exitm 5', 'x%d macro foo',
        ' macro', 'l%d macro x ; y', 'lab exitm', '"', "'", '(', ')', ' db )(']


class Fold:
    def __init__(self, p, rng, kinds=('if', 'inc', 'mac'), density=.12, maxdepth=4, newline=True, generic=.1,
                 conds=None, junk=JUNK):
        self.p, self.rng, self.kinds, self.density = p, rng, kinds, density
        self.maxdepth, self.newline, self.generic = maxdepth, newline, generic
        self.files = {}
        self.top = []           # macro definitions at the beginning
        self.pending = []       # macro definitions that must come before the next main line
        self.macros = {}        # name -> used
        self.used = set()
        self.n = 0
        self.stats = {}
        self.junk = junk
        self.gen = {}
        self.final = {}
        self.depthseen = 0
        self.inexp = 0          # inside the expansion of a macro

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def build(self, main='t.asm'):
        lines = list(enumerate(self.p.lines))
        out = self.block(lines, 0, 0, False)
        out = self.top + self.pending + out
        self.files[main] = self.join(out)
        return self.files

    def join(self, out):
        t = ''.join(l + '\n' for l in out)
        if self.newline and self.rng.random() < .4 and t:
            self.note('nonewline')
            t = t[:-1]
        return t

    def block(self, lines, depth, level, inmac):
        r = self.rng
        out = []
        i = 0
        while i < len(lines):
            if depth < self.maxdepth and self.kinds and r.random() < self.density:
                k = r.choice([0, 1, 1, 2, 3, 5, 8, r.randrange(1, 30)])
                seg = lines[i:i + k]
                kind = r.choice(self.kinds)
                new = None
                if kind == 'if':
                    new = self.cond(seg, depth, level, inmac, i, lines)
                elif kind == 'inc' and level < 7:
                    new = self.include(seg, depth, level, inmac)
                elif kind == 'mac' and level < 7:
                    new = self.macro(seg, depth, level, inmac)
                if new is not None:
                    self.depthseen = max(self.depthseen, depth + 1)
                    if not self.inexp:
                        out += self.pending
                        self.pending = []
                    out += new
                    i += len(seg)
                    continue
            x = lines[i][1]
            new = None
            if 'mac' in self.kinds and level < 8 and r.random() < self.generic:
                new = self.onecall(x)
            if new is not None:
                if not self.inexp:
                    out += self.pending
                    self.pending = []
                out += new
            else:
                out.append(x.text())
            i += 1
        return out

    # -- conditionals
    def truth(self, want, lines, i):
        """a condition whose value is `want` at this place"""
        r = self.rng
        if r.random() < .6:
            return r.choice(TRUE if want else FALSE)
        # a symbol defined above, never redefined
        at = lines[i][0] if i < len(lines) else len(self.p.lines)
        cand = [x for x in self.p.lines[:at] if x.label and not x.err and x.label[0] != '.']
        cand = [x for x in cand[-12:] if sum(1 for y in self.p.lines if y.label.upper() == x.label.upper()) == 1]
        if not cand:
            return r.choice(TRUE if want else FALSE)
        x = r.choice(cand)
        s = self.p.syms[x.label.upper()]
        v = s.value if s.value < 1 << 31 else s.value - (1 << 32)
        self.used.add(x.label.upper())
        n = r.choice([x.label, x.label.lower(), x.label.upper()])
        op = r.choice(['=', '==', '<>', '!=', '<', '>', '<=', '>='])
        d = r.choice([0, 0, 1, -1, 100])
        w = v + d
        if abs(w) >= 1 << 31:
            w = v
        res = {'=': v == w, '==': v == w, '<>': v != w, '!=': v != w, '<': v < w, '>': v > w, '<=': v <= w, '>=': v >= w}[op]
        t = number(w, r) if w >= 0 else '-%d' % -w
        sp = r.choice(['', ' '])
        c = n + sp + op + sp + t
        if res != want:
            op = {'=': '!=', '==': '<>', '<>': '==', '!=': '=', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            c = n + sp + op + sp + t
        self.note('symcond')
        return c

    def rubbish(self, n, inmac, depth=0):
        r = self.rng
        out = []
        for _ in range(n):
            q = r.random()
            if q < .1 and depth < 3:
                out += [' if' + r.choice(['', ' 1', ' 0', ' nosuch', ' ((', " 'x"])] + self.rubbish(r.randrange(3), inmac, depth + 1)
                if r.random() < .5:
                    out += [' else'] + self.rubbish(r.randrange(3), inmac, depth + 1)
                out += [' endc']
            elif q < .14 and not inmac and not self.inexp:
                out += ['mm%d macro' % r.randrange(50)] + [r.choice([' db 1', ' if 1', ' else', ' endc', ' exitm'])
                                                           for _ in range(r.randrange(3))] + [' endm']
            elif q < .16 and self.macros:
                out.append(' %s 1,2' % r.choice(sorted(self.macros)))
            elif q < .2:
                x = r.choice(self.p.lines)
                t = x.text()
                if not inmac or not re.search(r'\\[1-9#*]', t):
                    out.append(t)
            else:
                j = r.choice(self.junk)
                if inmac and '\\' in j:
                    continue
                out.append(j % r.randrange(1000) if '%d' in j else j)
            if inmac:
                # a macro's text loses its comments, which may hold anything
                out[-1:] = [o for o in out[-1:] if 'endm' not in o.lower()]
        return out

    def case(self, w):
        r = self.rng
        return r.choice([w, w, w.upper(), w.capitalize()])

    def cond(self, seg, depth, level, inmac, i, lines):
        r = self.rng
        self.note('if')
        body = self.block(seg, depth + 1, level, inmac)
        junk = self.rubbish(r.choice([0, 1, 2, 3, 6]), inmac)
        ind = r.choice([' ', '  ', '\t'])
        if r.random() < .5:
            c = self.truth(True, lines, i)
            out = [ind + self.case('if') + ' ' + c] + body
            if r.random() < .6:
                self.note('junkelse')
                out += [ind + self.case('else')] + junk
        else:
            c = self.truth(False, lines, i)
            out = [(ind + self.case('if') + ' ' + c).rstrip()] + junk
            self.note('junkthen')
            out += [ind + self.case('else')] + body
        return out + [ind + self.case('endc')]

    # -- include files
    def include(self, seg, depth, level, inmac):
        self.note('include')
        self.n += 1
        name = self.rng.choice(['f%d.inc', 'F%d', 'sub/f%d.asm', 'f_%d.h']) % self.n
        keep, self.pending = self.pending, []
        body = self.block(seg, depth + 1, level + 1, False)
        # definitions made on the way stand in the file itself, unless it is inside a macro
        self.files[name] = self.join(body)
        self.pending = keep + self.pending
        return [' %s %s%s' % (self.case('include'), name, self.rng.choice(['', ' ', '  ; more']))]

    # -- macros
    def macroname(self):
        self.n += 1
        n = self.rng.choice(['mac%d', 'M_%d', 'do.it%d']) % self.n
        self.macros[n] = True
        return n

    def closed(self, seg):
        ins = {i for i, _ in seg}
        if not seg:
            return True
        if any(x.kind in ('scope', 'cpu', 'output', 'include') for _, x in seg):
            return False
        names = set()
        for _, x in seg:
            for n in list(x.refs) + [x.label]:
                if n[:1] == '.':
                    names.add(key(x, n))
        if names:
            for i, x in enumerate(self.p.lines):
                if i not in ins:
                    for n in list(x.refs) + [x.label]:
                        if n[:1] == '.' and key(x, n) in names:
                            return False
        return True

    def define(self, name, body, inmac):
        r = self.rng
        d = ['%s %s' % (name, self.case('macro'))] + body + [r.choice([' ', '\t', '  ']) + self.case('endm')]
        if self.inexp or r.random() < .5:
            self.top += d
        else:
            self.pending += d

    def macro(self, seg, depth, level, inmac):
        r = self.rng
        if not self.closed(seg):
            return None
        if any(re.search(r'\\[1-9#*]', x.text().split(';')[0] if x.kind == 'comment' else x.text()) for _, x in seg):
            return None
        self.note('macro')
        # a body that contains further structure keeps its text; a flat one gets parameters
        args = []
        if r.random() < .5:
            self.inexp += 1
            body = self.block(seg, depth + 1, level + 1, True)
            self.inexp -= 1
        else:
            body = []
            for _, x in seg:
                lab, op, arg = x.label, x.op, x.arg.replace('\x02', '')
                parts = split(arg) if arg else None
                if parts and all(parts) and all(balanced(y) for y in parts):
                    for j, part in enumerate(parts):
                        if len(args) < 8 and r.random() < .3 and part not in ('',):
                            args.append(part)
                            parts[j] = '\\%d' % len(args)
                    arg = r.choice([',', ', ']).join(parts)
                if lab and len(args) < 8 and r.random() < .3 and x.kind != 'org':
                    args.append(lab)
                    lab = '\\%d' % len(args)
                if op and op != '=' and len(args) < 8 and r.random() < .15 and x.kind in ('data', 'instr'):
                    args.append(op)
                    op = '\\%d' % len(args)
                save = x.label, x.op, x.arg
                x.label, x.op, x.arg = lab, op, arg
                body.append(x.text())
                x.label, x.op, x.arg = save
        # the call's operands may not be longer than a line
        if sum(len(a) + 2 for a in args) > 180:
            return None
        q = r.random()
        if q < .15:
            body = body + [' ' + self.case('exitm')] + self.rubbish(2, True)
            self.note('exitm')
        elif q < .3:
            body = body + [' if 1', ' exitm', ' endc'] + self.rubbish(2, True)
            self.note('exitm')
        elif q < .45:
            body = [' if \\#=%d' % len(args)] + body + [' else', ' fail wrong number of operands', ' endc']
            self.note('argcount')
        if any(len(b) > 200 for b in body):
            return None
        name = self.macroname()
        self.define(name, body, inmac)
        return [' %s %s' % (r.choice([name, name.upper(), name.lower()]), r.choice([',', ', ', ' , ']).join(args))]

    def onecall(self, x):
        """the line through one of a few general macros, which are called many times"""
        r = self.rng
        arg = x.arg.replace('\x02', '')
        if not x.op or x.kind not in ('data', 'instr') or x.label[:1] == '.' or any(n[0] == '.' for n in x.refs) \
                or x.op == '=' or len(arg) > 200:
            return None
        parts = split(arg) if arg else []
        if parts is None or not all(parts) or len(parts) > 6 or not all(balanced(y) for y in parts):
            return None
        c = []
        if not x.label:
            c.append(('line%d' % len(parts), [' \\1 ' + ','.join('\\%d' % (j + 2) for j in range(len(parts)))],
                      [x.op] + parts))
            c.append(('%sall' % x.op, [' %s \\*' % x.op], parts))
            if len(parts) <= 3 and parts:
                c.append(('any', [' if \\#=2', ' \\1 \\2', ' else', ' if \\#=3', ' \\1 \\2,\\3', ' exitm', ' endc',
                                  ' \\1 \\2,\\3,\\4', ' endc'], [x.op] + parts))
        else:
            c.append(('lab%d' % len(parts), ['\\1 \\2 ' + ','.join('\\%d' % (j + 3) for j in range(len(parts)))],
                      [x.label, x.op] + parts))
        name, body, args = r.choice(c)
        name = 'g_' + name
        if name not in self.macros:
            self.macros[name] = True
            self.top += ['%s macro' % name] + body + [' endm']
        self.note('generic')
        return [' %s %s' % (name, r.choice([',', ', ']).join(args))]
