"""Programs folded into conditionals, macros and include files with listing switches, and a
simulator that says which rows their listing must have."""
import gen


class Want:
    """a row that must come"""
    __slots__ = ('mark', 'text', 'stmts', 'value', 'wild', 'optional')

    def __init__(self, mark, text, stmts=(), value=None, wild=False, optional=False):
        self.mark, self.text, self.stmts, self.value, self.wild, self.optional = mark, text, list(stmts), value, wild, optional

    def __repr__(self):
        return 'row %s %r %s value %s' % (self.mark, self.text, [('%X' % a, d.hex()) for a, d in self.stmts],
                                          None if self.value is None else '%X' % self.value)


class Node:
    pass


class Leaf(Node):
    def __init__(self, x):
        self.x = x


class If(Node):
    def __init__(self, body, other, taken, cond, haselse):
        self.body, self.other, self.taken, self.cond, self.haselse = body, other, taken, cond, haselse


class Mac(Node):
    def __init__(self, name, body, exitm):
        self.name, self.body, self.exitm = name, body, exitm


class Inc(Node):
    def __init__(self, name, body):
        self.name, self.body = name, body
        self.exitm = False


class Toggle(Node):
    def __init__(self, what, on):
        self.what, self.on = what, on


class Text(Node):
    """a line that is listed and emits nothing"""

    def __init__(self, text):
        self.text = text


JUNK = [' frobnicate 5', ' db 1,2,3', 'junk_label', ' db undefinedsymbol', '12bad = 5', ' dw 5+', '', '; skipped', ' asc "skipped"', ' org 5',
        'jl db 5', ' list off', ' cpu 8080', ' include nosuchfile', ' mlist on', ' fail skipped', ' skip 3', ' page']


class Builder:
    def __init__(self, rng, p, density, kinds, toggles):
        self.rng, self.p, self.density, self.kinds, self.toggles = rng, p, density, kinds, toggles
        self.files = {}
        self.n = 0
        self.stats = {}

    def junk(self, depth=0):
        r = self.rng
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            q = r.random()
            if q < .15 and depth < 3:
                res.append(If(self.junk(depth + 1), self.junk(depth + 1), r.random() < .5, '1', r.random() < .5))
            elif q < .3 and self.n:
                # the call of a macro that there is, but not here
                res.append(Text(r.choice([' zqm%d', ' ZQM%d 5', 'jl zqm%d', '\tzqm%d a,b']) % r.randrange(self.n)))
            else:
                res.append(Text(r.choice(JUNK)))
        return res

    def macroable(self, xs):
        return all(x.kind in ('data', 'instr', 'comment', 'equ', 'label') and not x.err and '\\' not in x.text() and
                   not (x.label or '').startswith('.') and not any(n.startswith('.') for n in x.refs) for x in xs)

    def tree(self, xs, depth, inmac=False, ininc=False, top=True, src=0, chain=0):
        """src: nested files and macros; chain: so many more are to be nested here"""
        r = self.rng
        res = []
        i = 0
        at = r.randrange(max(1, min(3, len(xs)))) if chain else -1
        while i < len(xs):
            go = at == i or (depth < 6 and src < 9 and r.random() < self.density * (2 if inmac is True else 1))
            deeper, at = (chain - 1, -1) if at == i else (0, at)
            if go:
                k = r.choice([0, 1, 2, 3, 5, 10]) if not deeper else r.choice([3, 8, 15])
                part = xs[i:i + k]
                kind = r.choice(self.kinds)
                if deeper and kind == 'if' and len(self.kinds) > 1:
                    kind = r.choice([x for x in self.kinds if x != 'if'])
                if kind == 'mac' and self.macroable(part):
                    body = self.tree(part, depth + 1, True, ininc, False, src + 1, deeper)
                    res.append(Mac('zqm%d' % self.n, body, r.random() < .2))
                    if body and isinstance(body[-1], Inc) and r.random() < .4:
                        # the last file leaves the macro
                        body[-1].exitm = res[-1].exitm = True
                    self.n += 1
                    i += k
                    continue
                if kind == 'inc':
                    body = self.tree(part, depth + 1, inmac, True, True, src + 1, deeper)
                    res.append(Inc('inc%d.asm' % self.n, body))
                    self.n += 1
                    i += k
                    continue
                if kind == 'if':
                    taken = r.random() < .5
                    good = self.tree(part, depth + 1, inmac, ininc, False, src, deeper)
                    bad = self.junk()
                    if inmac:
                        bad = [b for b in bad if isinstance(b, Text) and '\\' not in b.text]
                    cond = r.choice(['1', '5', '2>1', '3 = 3', '1 <> 2', '1<=1'] if taken else ['0', '1=2', '3<2', '1<>1', '2 >= 3'])
                    haselse = not taken or r.random() < .5
                    if taken:
                        res.append(If(good, bad if haselse else [], True, cond, haselse))
                    else:
                        res.append(If(bad, good, False, cond, True))
                    i += k
                    continue
            if top and not inmac and r.random() < self.toggles:
                if ininc:
                    res.append(Toggle('list', r.random() < .5))
                else:
                    res.append(Toggle(r.choice(['list', 'mlist', 'mlist', 'clist', 'ilist', 'ilist']), r.random() < .6))
                if not ininc and res[-1].what == 'list' and not res[-1].on and r.random() < .7:
                    # usually short
                    res += [Leaf(x) for x in xs[i:i + 2]] + [Toggle('list', True)]
                    i += 2
                continue
            if r.random() < .03:
                # a symbol that has no value to show
                res.append(Text(r.choice(['zqb%d = 5{3}', 'zqb%d equ 300{0}', 'zqd%d equ db', 'zqd%d = ds', 'zqd%d\tequ\tnam']) % self.n))
                self.n += 1
            res.append(Leaf(xs[i]))
            i += 1
        return res


class Sim:
    """writes the files and the rows that are expected"""

    def __init__(self, rng, p, faulty=False):
        self.rng, self.p = rng, p
        self.files = {}
        self.rows = []
        self.list, self.mlist, self.clist, self.ilist = True, False, True, False
        self.agg = None          # the statements of an unlisted expansion
        self.depth = 0
        self.stats = {}

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def main(self, tree):
        out = self.files['t.asm'] = []
        out.append(' page 0,999')
        self.row(out, Want(1, out[0]))
        self.walk(tree, out, hidden=False)
        self.rows.append(Want(len(out) + 1, '', optional=True))
        return {n: ''.join(l + '\n' for l in t) for n, t in self.files.items()}

    def row(self, out, w, hidden=False):
        if self.list and not hidden:
            self.rows.append(w)

    @staticmethod
    def bare(x):
        """the line as a macro keeps it: without its comment"""
        c, x.comment = x.comment, ''
        try:
            return '' if x.kind == 'comment' else x.text()
        finally:
            x.comment = c

    def leaf_row(self, x, mark, bare):
        value = None
        stmts = []
        if x.err:
            return Want(mark, x.text(), wild=True)
        if x.kind == 'org':
            value = x.addr
        elif x.kind == 'equ':
            k = gen.key(x, x.label)
            value = x.val
        elif x.label and not x.code:
            value = x.addr
        if x.data and x.code:
            stmts = [(x.addr, x.data)]
        return Want(mark, self.bare(x) if bare else x.text(), stmts, value)

    def walk(self, nodes, out, hidden, inmac=False):
        """nodes that are really assembled; out: lines of the file, or of a macro body;
        inmac: False, True, or 'file' for a file that a macro includes"""
        r = self.rng
        for n in nodes:
            mark = 'M' if inmac else len(out) + 1
            if isinstance(n, Leaf):
                out.append(n.x.text())
                w = self.leaf_row(n.x, mark, inmac is True)
                if self.agg is not None:
                    self.agg += w.stmts
                elif n.x.err:
                    # shown whatever the switches say
                    self.rows.append(w)
                else:
                    self.row(out, w, hidden)
                self.note('leaves')
            elif isinstance(n, Text):
                out.append(n.text)
                if self.agg is None:
                    self.row(out, Want(mark, '' if inmac is True and n.text[:1] == ';' else n.text), hidden)
            elif isinstance(n, Toggle):
                t = ' %s %s' % (n.what, 'on' if n.on else 'off')
                out.append(t)
                if n.what == 'list':
                    if n.on:
                        self.list = True
                        self.row(out, Want(mark, t), hidden)
                    else:
                        self.list = False
                else:
                    setattr(self, n.what, n.on)
                    self.row(out, Want(mark, t), hidden)
                self.note('toggle ' + n.what)
            elif isinstance(n, If):
                self.cond(n, out, hidden, inmac)
            elif isinstance(n, Mac):
                self.macro(n, out, hidden, inmac)
            else:
                self.include(n, out, hidden, inmac)

    def cond(self, n, out, hidden, inmac):
        show = self.clist and self.agg is None

        def line(t):
            mark = 'M' if inmac else len(out) + 1
            out.append(t)
            if show:
                self.row(out, Want(mark, t), hidden)
        line(' if ' + n.cond)
        (self.walk if n.taken else self.skip)(n.body, out, hidden, inmac)
        if n.haselse:
            line(' else')
            (self.skip if n.taken else self.walk)(n.other, out, hidden, inmac)
        line(' endc')
        self.note('if')

    def skip(self, nodes, out, hidden, inmac):
        for n in nodes:
            if isinstance(n, If):
                self.skip1(' if 1', out, hidden)
                self.skip(n.body, out, hidden, inmac)
                if n.haselse:
                    self.skip1(' else', out, hidden)
                    self.skip(n.other, out, hidden, inmac)
                self.skip1(' endc', out, hidden)
            else:
                self.skip1(n.text, out, hidden, inmac)

    def skip1(self, t, out, hidden, inmac=False):
        out.append(t)
        if self.clist and self.agg is None:
            self.row(out, Want('C', '' if inmac is True and t[:1] == ';' else t), hidden)
        self.note('skipped lines')

    def macro(self, n, out, hidden, inmac):
        """the definition was written before (see defs)"""
        t = ' ' + n.name
        mark = 'M' if inmac else len(out) + 1
        out.append(t)
        old = self.list
        body = n.lines = []
        if self.agg is not None:
            self.walk(n.body, body, hidden, True)
        elif self.mlist:
            self.row(out, Want(mark, t), hidden)
            self.walk(n.body, body, hidden, True)
        else:
            self.agg = []
            self.walk(n.body, body, hidden, True)
            agg, self.agg = self.agg, None
            self.row(out, Want(mark, t, agg), hidden)
        self.list = old
        if n.exitm:
            body += [' exitm', ' frobnicate', 'zql\\1 db 5']
        self.note('macro')

    def include(self, n, out, hidden, inmac):
        t = ' include ' + n.name
        if self.agg is None:
            self.row(out, Want('M' if inmac else len(out) + 1, t), hidden)
        out.append(t)
        old = self.list
        new = self.files[n.name] = []
        if not self.ilist:
            # as if LIST OFF were the first line of the file
            self.list = False
        self.walk(n.body, new, hidden, 'file' if inmac else False)
        if n.exitm:
            new += [' exitm', ' frobnicate', ' db 5']
        elif self.agg is None:
            self.row(new, Want('M' if inmac else len(new) + 1, '', optional=True), hidden)
        self.list = old
        self.note('include in a macro' if inmac else 'include')


def macros_of(nodes):
    for n in nodes:
        if isinstance(n, Mac):
            yield from macros_of(n.body)
            yield n
        elif isinstance(n, If):
            yield from macros_of(n.body)
            yield from macros_of(n.other)
        elif isinstance(n, Inc):
            yield from macros_of(n.body)


def with_defs(nodes, sim, rng):
    """definitions of the macros as lines of their own before the outermost node that uses
    them (a macro is not defined inside another one)"""
    res = []
    for n in nodes:
        if isinstance(n, Inc):
            n.body = with_defs(n.body, sim, rng)
        elif isinstance(n, If):
            n.body = with_defs(n.body, sim, rng)
            n.other = with_defs(n.other, sim, rng)
        elif isinstance(n, Mac):
            for m in macros_of([n]):
                res.append(Text('%s macro' % m.name))
                res += [Text(l) for l in body_of(m)]
                res.append(Text(' endm'))
        res.append(n)
    return res


def body_of(m):
    """the lines of a macro's body, as the simulator will write them for an expansion"""
    s = Sim(None, None)
    s.agg = []
    out = []
    s.walk(m.body, out, True, True)
    if m.exitm:
        out += [' exitm', ' frobnicate', 'zql\\1 db 5']
    return out
