#!/usr/bin/env python3
"""C08: local labels stay local to their scope.

Random programs of sections, macro expansions (nested, recursive, left with EXITM) and
include files that all use the same few local names; a resolver of its own gives every
use its value.  Monitors: the object bytes; and, when references across scopes and
second definitions are mixed in, the exact erroneous lines and the bytes of the others.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import foldcheck  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import listing  # noqa: E402
from numtext import number  # noqa: E402

POOL = ['.a', '.1', '.11', '.loop', '.b', '..', '._', '.a.b', '.x_y', '.end', '.A1', '.' + 'long' * 8 + 'x1', '.' + 'long' * 8 + 'x2', '.2', '.h', '.b0', '.e',
        '.' + 'long' * 11 + 'xy1', '.' + 'long' * 11 + 'xy2']


def cased(rng, n):
    return rng.choice([n, n, n.lower(), n.upper(), n.swapcase()])


class Flat:
    """the expansion: a list of events in order, with scopes"""

    def __init__(self):
        self.ev = []            # (kind, scope, line number, ...)
        self.scopes = 0

    def new(self):
        self.scopes += 1
        return self.scopes


class Work:
    def __init__(self, rng, nscopes, faults=0.0, nmac=4):
        self.rng, self.faults = rng, faults
        self.cpu = rng.choice(gen.CPUS)
        self.e = 'big' if self.cpu in gen.BIG else 'little'
        self.pool = rng.sample(POOL, rng.choice([2, 4, 8, len(POOL)]))
        self.macros = []
        self.nmac, self.nscopes = nmac, nscopes
        self.globals = ['glob%d' % i for i in range(3)]
        self.uses = 0

    # a body is a list of statements; locals are declared for the whole body, so that it
    # can refer forward.  ('def', name) ('equ', name, value) ('redef', name, value)
    # ('use', name) ('bad', name) ('dup', name) ('call', macro, args) ('scope', op)
    # ('fill', n) ('exitm',) ('if', cond, body, body) ('arg', k) ('glob', name)
    def body(self, macro, size, args=0):
        r = self.rng
        names = r.sample(self.pool, r.randrange(0, min(len(self.pool), 5) + 1))
        labs = [n for n in names if r.random() < .7]
        equs = [n for n in names if n not in labs]
        absent = [n for n in self.pool if n not in names] + ['.never']
        res = []
        self.usable = labs
        for n in labs:
            res.append(('def', n))
        fwd = [n for n in equs if r.random() < .4]
        for n in equs:
            res.append(('equ', n, r.choice([0, 1, 255, 65535, r.randrange(1 << 32)])))
        r.shuffle(res)
        first = {x[1]: i for i, x in enumerate(res)}
        out = []
        for i, x in enumerate(res + [None]):
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                q = r.random()
                usable = labs + fwd + [n for n in equs if first[n] < i]
                if q < .5 and usable:
                    out.append(('use', r.choice(usable)))
                elif q < .62 and self.callable(macro):
                    m = r.choice(self.callable(macro))
                    out.append(('call', m, [r.choice(m.usable + self.globals[:1 + (not m.usable) * 2]) for _ in range(m.args)]))
                elif q < .7 and args:
                    out.append(('arg', r.randrange(args)))
                elif q < .75:
                    out.append(('glob', r.choice(self.globals)))
                elif q < .85:
                    out.append(('fill', r.choice([0, 1, 2, 7])))
                elif q < .9:
                    c = r.random() < .5
                    a, b = [], []
                    for _ in range(r.randrange(3)):
                        if usable:
                            a.append(('use', r.choice(usable)))
                    # the branch not taken may say anything
                    b = [('def', r.choice(self.pool)) for _ in range(r.randrange(3))]
                    out.append(('if', c, a if c else b, b if c else a))
                elif r.random() < self.faults:
                    if q < .96:
                        out.append(('bad', r.choice(absent), r.randrange(4)))
                    elif [n for n in labs if first[n] < i]:
                        out.append(('dup', r.choice([n for n in labs if first[n] < i]), r.randrange(3)))
                elif macro and q < .93:
                    later = [y[1] for y in res[i:]]
                    if not later:
                        out.append(('if', r.random() < .5, [('exitm',)], []))
                        if out[-1][1]:
                            # the rest is never reached
                            out.append(('use', r.choice(self.pool)))
                            return out
            if x:
                out.append(x)
                if x[0] == 'equ' and x[1] not in fwd and r.random() < .3 and not any(u == ('use', x[1]) for u in out):
                    out.append(('use', x[1]))
                    out.append(('redef', x[1], r.randrange(1 << 16)))
        return out

    def callable(self, macro):
        if macro is None:
            return self.macros
        return [m for m in self.macros if m.height < 7]

    def build(self):
        r = self.rng

        class M:
            pass
        self.lines = []
        self.fl = Flat()
        self.files = {}
        put = self.put
        put(' cpu %s' % self.cpu)
        for i in range(r.randrange(0, self.nmac + 1)):
            m = M()
            m.name = 'mac%d' % i
            m.args = r.randrange(0, 3)
            m.rec = r.random() < .15 and m.args > 0
            m.height = 0
            m.body = self.body(m, 3, 0 if m.rec else m.args)
            m.usable = list(self.usable)
            for x in m.body:
                if x == ('exitm',) or x[0] == 'if' and ('exitm',) in x[2]:
                    m.usable = []
            m.height = 1 + max([c.height for c in self.calls(m.body)] or [0])
            if m.rec:
                m.height = 7
            self.macros.append(m)
        for m in self.macros:
            put('%s macro' % m.name)
            for t in self.render(m.body, '\\'):
                put(t)
            if m.rec:
                # once more, without operands, with its own locals
                put(' if \\#')
                put(' %s' % m.name)
                put(' endc')
            put(' endm')
        a = r.choice([0, 0x200, 0x8000, 0x4000])
        self.usable = []
        put('* = %s' % number(a, r))
        self.org = a
        scope = 0
        for i in range(self.nscopes):
            b = self.body(None, 6)
            if r.random() < .15:
                # part of the scope stands in an include file
                name = 'f%d.inc' % i
                cut = r.randrange(len(b) + 1)
                end = r.randrange(cut, len(b) + 1)
                self.emit(b[:cut], scope)
                save, self.lines = self.lines, []
                self.emit(b[cut:end], scope)
                self.files[name], self.lines = ''.join(x + '\n' for x in self.lines), save
                put(' include %s' % name)
                self.emit(b[end:], scope)
            else:
                self.emit(b, scope)
            if i + 1 < self.nscopes:
                op = r.choice(['code', 'dummy', 'code', 'CODE'])
                put(' ' + op)
                scope = self.fl.new()
                self.fl.ev.append(('code', op.lower() == 'code'))
        for g in self.globals:
            put(g)
            self.fl.ev.append(('def', 'g', g, len(self.lines)))
            put(' db 1')
            self.fl.ev.append(('bytes', 1, b'\1', len(self.lines)))
        self.files['t.asm'] = ''.join(x + '\n' for x in self.lines)
        self.resolve()
        return self

    def calls(self, body):
        for s in body:
            if s[0] == 'call':
                yield s[1]
            elif s[0] == 'if':
                yield from self.calls(s[2])
                yield from self.calls(s[3])

    def put(self, t):
        self.lines.append(t)

    def one(self, s, esc):
        """source lines of a statement; esc is given inside a macro"""
        r = self.rng
        k = s[0]
        if k == 'def':
            return ['%s' % cased(r, s[1]) if r.random() < .7 else '%s ds 0' % cased(r, s[1])]
        if k in ('equ', 'redef'):
            return ['%s %s %s' % (cased(r, s[1]), r.choice(['=', 'equ']), number(s[2], r))]
        if k == 'use':
            return [' dl %s' % cased(r, s[1])]
        if k == 'glob':
            return [' dl %s' % cased(r, s[1])]
        if k == 'arg':
            return [' dl \\%d' % (s[1] + 1)]        # a name in the operands belongs to the expansion
        if k == 'fill':
            return [' ds %d,$ee' % s[1]]
        if k == 'bad':
            return [['tmpv = %s', ' ds %s', 'tmpv equ 5+%s', ' skip %s'][s[2]] % cased(r, s[1])]
        if k == 'dup':
            return [['%s', '%s = 5', '%s ds 0'][s[2]] % cased(r, s[1])]
        if k == 'call':
            return [' %s %s' % (cased(r, s[1].name), ','.join(s[2]))]
        if k == 'exitm':
            return [' exitm']
        if k == 'if':
            res = [' if %s' % r.choice(['1', '2-1', '5>2'] if s[1] else ['0', '1-1', '2>5'])] + self.render(s[2], esc)
            if s[3] or r.random() < .3:
                res += [' else'] + self.render(s[3], esc)
            return res + [' endc']
        raise KeyError(k)

    def render(self, body, esc):
        return [t for s in body for t in self.one(s, esc)]

    def emit(self, body, scope):
        """statements of the main file (or an include): text and events"""
        for s in body:
            for t in self.one(s, ''):
                self.put(t)
            n = len(self.lines)
            self.happen(s, scope, n, ())

    def happen(self, s, scope, n, args):
        """the events of one statement; True: EXITM"""
        ev = self.fl.ev
        k = s[0]
        if k in ('def', 'equ', 'redef'):
            ev.append((k, scope, s[1].upper(), n) + tuple(s[2:]))
        elif k == 'use':
            self.uses += 1
            ev.append(('use', scope, s[1].upper(), n))
        elif k == 'glob':
            ev.append(('use', 'g', s[1], n))
        elif k == 'arg':
            if s[1] < len(args):
                a = args[s[1]]
                ev.append(('use', scope, a.upper(), n) if a[0] == '.' else ('use', 'g', a, n))
            else:
                ev.append(('noarg', n))
        elif k == 'fill':
            ev.append(('bytes', s[1], b'\xee' * s[1], n))
        elif k in ('bad', 'dup'):
            ev.append(('err', n))
        elif k == 'exitm':
            return True
        elif k == 'if':
            for x in s[2] if s[1] else s[3]:
                if self.happen(x, scope, n, args):
                    return True
        elif k == 'call':
            self.expand(s[1], s[2], n)
        return False

    def expand(self, m, args, n):
        scope = self.fl.new()
        for x in m.body:
            if self.happen(x, scope, n, args):
                return
        if m.rec and args:
            self.expand(m, (), n)

    # -- the truth
    def resolve(self):
        pc = self.org
        code = True
        val, at = {}, []
        for e in self.fl.ev:
            at.append((pc, code))
            if e[0] == 'def':
                val[e[1], e[2]] = pc
            elif e[0] == 'equ':
                val.setdefault((e[1], e[2]), e[4])
            elif e[0] == 'use':
                pc += 4
            elif e[0] == 'bytes':
                pc += e[1]
            elif e[0] == 'code':
                code = e[1]
        self.stream, self.err, self.chunks = [], [], []
        cur = {}
        for e, (a, c) in zip(self.fl.ev, at):
            d = b''
            if e[0] == 'use':
                d = (cur.get((e[1], e[2]), val.get((e[1], e[2]))) & 0xffffffff).to_bytes(4, self.e)
            elif e[0] == 'bytes':
                d = e[2]
            elif e[0] in ('equ', 'redef'):
                cur[e[1], e[2]] = e[4]
            elif e[0] == 'err':
                self.err.append(e[1])
            if c and d:
                self.stream += [(a + i, b) for i, b in enumerate(d)]
                self.chunks.append((a & 0xffff, d))
        self.top = pc


def one(ctx, item):
    k, big = item
    rng = ctx.check.rng('one', k, big)
    w = Work(rng, rng.choice([200, 600, 1200]) if big else rng.choice([1, 2, 3, 6, 15]),
             rng.choice([0, 0, .3]), nmac=rng.choice([0, 2, 5])).build()
    while w.top > 0xffff:
        w = Work(rng, 100, 0, nmac=2).build()
    ctx.add('cases')
    ctx.add('uses', w.uses)
    ctx.add('scopes', w.fl.scopes + 1)
    ctx.seen('scope_counts', w.fl.scopes)
    ctx.sample(w.files['t.asm'][:400])
    if not w.err:
        r = ctx.run(w.files, rng.choice([('-l',), ()]))
        ob = judge.run_ok(ctx, r, 'scope')
        if ob is None:
            return
        if ob.stream() != w.stream:
            ctx.violation('scope:bytes', judge.hexs(w, ob.stream(), w.stream), r)
            return
        ctx.seen('nontrivial', w.files['t.asm'])
        if r.o.nwarn:
            ctx.violation('scope:warn', '%d warnings' % r.o.nwarn, r)
        return
    fs = dict(w.files)
    fs['t.asm'] = ' page 0,250\n mlist on\n ilist on\n' + fs['t.asm']
    r = ctx.run(fs, ())
    if r.kind != 'exit' or r.code or r.o.fatal:
        ctx.violation('scope:end', 'ended with %s %s' % (r.describe(), r.o.fatal), r)
        return
    ctx.add('faults', len(w.err))
    got = r.o.errlines()
    want = w.err if len(w.files) > 1 else [n + 3 for n in w.err]
    if len(w.files) > 1:
        if len(got) != len(want):
            ctx.violation('scope:errcount', '%d errors, expected %d' % (len(got), len(want)), r)
            return
    elif got != want:
        n = ([x for x in want if x not in got] + [x for x in got if x not in want] + want)[0]
        ctx.violation('scope:errors', 'errors at lines %s, expected %s; first at %r' % (
            got[:8], want[:8], fs['t.asm'].split('\n')[n - 1]), r)
        return
    if any('label' not in m.lower() for _, m in r.o.errors):
        ctx.violation('scope:errkind', 'errors %s' % r.o.errors[:3], r)
        return
    bad = foldcheck.compare(foldcheck.listed(r.o), w.chunks)
    if bad:
        ctx.violation('scope:listed', bad, r)
        return
    ctx.seen('nontrivial', w.files['t.asm'])


def cross(ctx, k):
    """one reference that crosses a border, of every kind: exactly this is an error"""
    rng = ctx.check.rng('cross', k)
    r = rng
    n = cased(r, r.choice(POOL))
    use = r.choice([' dl %s', ' dw %s', ' db %s', 'zz = %s', ' ds %s', '* = %s', ' dl 5,%s+1', ' if %s']) % cased(r, n)
    other = r.choice(POOL)
    head = [' cpu ' + r.choice(gen.CPUS), '* = $200']
    d = r.choice(['%s', '%s db 1', '%s = 5', '%s ds 3']) % n
    sec = ' ' + r.choice(['code', 'dummy', 'CODE', 'DUMMY'])
    mac = ['mm macro', '\\0', ' endm']
    shape = r.randrange(9)
    if 3 <= shape <= 7 and use.startswith(' if'):
        use = ' dw ' + use[4:]      # a faulty IF would not pair with the ENDC of its macro
    if shape == 0:
        ls = head + [d, sec, use]
    elif shape == 1:
        ls = head + [use, sec, d]
        ls = head + [sec, use, sec, d]
    elif shape == 2:        # defined in an expansion, used by the caller after it
        ls = head + ['mm macro', d, ' endm', ' mm', use]
    elif shape == 3:        # defined by the caller, used in the expansion
        ls = head + ['mm macro', use, ' endm', d, ' mm']
    elif shape == 4:        # used in one expansion, defined in the other
        ls = head + ['mm macro', d, ' endm', 'nn macro', use, ' endm', ' mm', ' nn']
    elif shape == 5:        # two expansions of one macro: only the first defines
        ls = head + ['mm macro', ' if \\#', d, ' else', use, ' endc', ' endm', ' mm 1', ' mm']
    elif shape == 6:        # an inner expansion does not see the outer one's
        ls = head + ['nn macro', use, ' endm', 'mm macro', d, ' nn', ' endm', ' mm']
    elif shape == 7:        # nor the outer one the inner one's
        ls = head + ['nn macro', d, ' endm', 'mm macro', ' nn', use, ' endm', ' mm']
    else:                   # a section in between, although the scope after it looks the same
        ls = head + [d, sec, ' ' + r.choice(['code', 'dummy']), use]
    text = '\n'.join(ls) + '\n'
    res = ctx.run(text, ('-l',))
    ctx.add('cases')
    if res.kind != 'exit' or res.code or res.o.fatal:
        ctx.violation('cross:end', 'ended with %s %s' % (res.describe(), res.o.fatal), res)
    elif not res.o.errors:
        ctx.violation('cross:%d:%s' % (shape, use.split()[0]), 'the reference %r crosses a scope, but is accepted' % use, res)
    elif len(res.o.errors) > 1 and ' if' not in use:
        ctx.violation('cross:more', 'errors %s' % res.o.errors, res)
    else:
        want = len(ls) if use == ls[-1] or shape in (2, 3, 4, 5, 6, 7) else ls.index(use) + 1
        if res.o.errlines()[0] != want:
            ctx.violation('cross:line', 'the error is reported at line %d, not %d' % (res.o.errlines()[0], want), res)
    ctx.seen('nontrivial', ('cross', shape, use.replace(n.lower(), 'n'), d.replace(n, '')))


def inside(ctx, k):
    """sections within macro expansions, include files and conditionals, all with the same names"""
    rng = ctx.check.rng('inside', k)
    pool = rng.sample(POOL, rng.choice([2, 3, 5]))
    cpu = rng.choice(gen.CPUS)
    e = 'big' if cpu in gen.BIG else 'little'
    frames = []

    def frame(i):
        items = []
        for s in range(rng.choice([1, 1, 2, 3, 4]) if i < 0 or rng.random() < .7 else 1):
            if s:
                items.append(('sec', rng.choice(['code', 'dummy', 'code'])))
            names = rng.sample(pool, rng.randrange(0, len(pool) + 1))
            part = [('def', n) for n in names] + [('use', rng.choice(names)) for _ in range(rng.randrange(4)) if names]
            low = frames if i < 0 else frames[:i]
            part += [('call', rng.randrange(len(low))) for _ in range(rng.randrange(3 if i < 0 else 2)) if low]
            rng.shuffle(part)
            items += part
        return items
    for i in range(rng.randrange(1, 5)):
        frames.append(frame(i))
    top = frame(-1)
    files = {}

    def text(items):
        ls = []
        for x in items:
            n = cased(rng, x[1]) if isinstance(x[1], str) else 'm%d' % x[1]
            ls.append({'def': rng.choice(['%s', '%s ds 0']), 'use': ' dl %s', 'sec': ' %s', 'call': ' %s'}[x[0]] % n)
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.randrange(len(ls) + 1)
            b = rng.randrange(a, len(ls) + 1)
            q = rng.randrange(3)
            if q == 0 and not any('include' in t for t in ls):
                f = 'f%d.inc' % len(files)
                files[f] = '\n'.join(ls[a:b]) + '\n' * (a < b)
                ls[a:b] = [' include ' + f]
            elif q == 1:
                ls[a:b] = ['\n'.join([' if 1'] + ls[a:b] + [' endc'])]
            elif q == 2:
                ls[a:b] = ['\n'.join([' if 0', ' ' + rng.choice(['code', 'dummy']), pool[0], ' else'] + ls[a:b] + [' endc'])]
        return ls
    head = [' cpu ' + cpu]
    for i, f in enumerate(frames):
        head += ['m%d macro' % i] + text(f) + [' endm']
    files['t.asm'] = '\n'.join(head + ['* = $100'] + text(top)) + '\n'
    ev = []
    count = [0]

    def do(items, scope):
        for x in items:
            if x[0] == 'sec':
                count[0] += 1
                scope = count[0]
                ev.append(('sec', 0, x[1]))
            elif x[0] == 'call':
                count[0] += 1
                do(frames[x[1]], count[0])
            else:
                ev.append((x[0], scope, x[1].upper()))
            if len(ev) > 8000:
                return
    do(top, 0)
    if len(ev) > 8000:
        return
    pc, val = 0x100, {}
    for what, s, n in ev:
        if what == 'def':
            val[s, n] = pc
        elif what == 'use':
            pc += 4
    pc, want, code = 0x100, [], True
    for what, s, n in ev:
        if what == 'sec':
            code = n == 'code'
        elif what == 'use':
            if code:
                want += [(pc + j, b) for j, b in enumerate(val[s, n].to_bytes(4, e))]
            pc += 4
    r = ctx.run(files, rng.choice([('-l',), ()]))
    ctx.add('cases')
    ctx.add('scopes', count[0] + 1)
    ob = judge.run_ok(ctx, r, 'inside')
    if ob is None:
        return
    ctx.seen('nontrivial', tuple(sorted(files.items())))
    if ob.stream() != want:
        ctx.violation('inside:bytes', 'sections inside macros: %d bytes, expected %d, first difference %s' % (
            len(ob.stream()), len(want), next(((a, b) for a, b in zip(ob.stream(), want) if a != b), None)), r)


def many(ctx, item):
    """the same local labels in any number of scopes, which are all of one kind or mixed"""
    n, kind, kept = item
    rng = ctx.check.rng('many', item)
    head = ['* = 0', 'mm macro', ' dl .l', '.l db 2', ' if \\1', ' dl .m', ' endc', '.m', ' endm', ' dummy']
    body = []
    data = b''
    at = 0
    code = False
    defined = set(rng.sample(range(n), min(n, 3000))) if kept else range(n)
    for i in range(n):
        k = rng.choice(['code', 'dummy', 'mac']) if kind == 'mix' else kind
        shown = i in defined
        if k == 'mac':
            body.append(' mm %d' % (i % 2))
            d = (at + 4).to_bytes(4, 'big') + b'\2' + ((at + 9).to_bytes(4, 'big') if i % 2 else b'')
        else:
            body.append(' ' + k)
            code = k == 'code'
            d = b''
            if shown:
                body += ['.l db 1', ' dl .l']
                d = b'\1' + at.to_bytes(4, 'big')
        if code:
            data += d
        at += len(d)
    r = ctx.run('\n'.join(head + body) + '\n', ('-l',))
    ctx.add('cases')
    ctx.add('scopes', n)
    ctx.seen('nontrivial', item)
    ob = judge.run_ok(ctx, r, 'many')
    if ob is None:
        return
    got = bytes(b for _, b in ob.stream())
    if got != data:
        ctx.violation('many:bytes', '%d scopes of kind %s: %d bytes, expected %d, or other ones' % (n, kind, len(got), len(data)), r)


def go():
    c = Check('C08')
    c.parallel(many, [(n, k, f) for n in (300, 1100, 33000, 66000) + (() if c.quick() else (140000,)) for k in ('code', 'dummy', 'mac', 'mix')
                      for f in (False, True)], chunk=1)
    c.parallel(one, [(k, False) for k in range(c.pick(12500, 100000))])
    c.parallel(one, [(k, True) for k in range(c.pick(100, 600))], chunk=1)
    c.parallel(inside, range(c.pick(3000, 30000)))
    c.parallel(cross, range(c.pick(7500, 40000)))
    c.finish('programs whose sections, macro expansions (nested, recursive) and includes reuse the same local names, with and '
             'without references that must fail; non-trivial: distinct programs judged', need=1000)


main(go)
