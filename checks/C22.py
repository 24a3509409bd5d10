#!/usr/bin/env python3
"""C22: listing pages keep the requested geometry.

Every program is assembled twice: on one endless 999 columns wide page, and with
PAGE p,w.  Monitor on the second listing: every page has its heading with the title and
the next number, exactly p lines, and two blank lines at its end; its rows are those of
the first listing, in order, whole when they fit into w columns, otherwise broken at
column w and continued without losing a visible character; PAGE ends a page, SKIP leaves
its blank rows.  Sizes and titles around the limits are refused exactly outside of them.
"""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import listing  # noqa: E402
from lister import Builder, Sim, Text, If, Mac, Inc, with_defs  # noqa: E402

HEAD = re.compile(r'^Crasm (\S+):(.*)page *(\d+)$')


class Bad(Exception):
    pass


def pages(out, p, complete):
    """the rows of each page, without heading and foot: [(title field, rows)]"""
    lines = out.lines
    if lines[-1] != '':
        raise Bad('the last line is not ended')
    lines = lines[:-1]
    res = []
    i = 0
    while not p and lines and lines[0] == '':
        lines.pop(0)            # the break of an endless page that is still empty
    while i < len(lines):
        m = HEAD.match(lines[i])
        if not m:
            raise Bad('page %d has no heading, but %r' % (len(res) + 1, lines[i]))
        if int(m.group(3)) != len(res) + 1:
            raise Bad('page %d has the number %s' % (len(res) + 1, m.group(3)))
        part = lines[i + 1:i + p] if p else lines[i + 1:]
        i += len(part) + 1
        if not part or part[0] != '':
            raise Bad('page %d: the heading is followed by %r' % (len(res) + 1, part[:1]))
        if p and len(part) == p - 1:
            if part[-2:] != ['', '']:
                raise Bad('page %d does not end with two blank lines, but %r' % (len(res) + 1, part[-2:]))
            part = part[:-2]
        elif p and complete:
            raise Bad('the last page has %d lines' % (len(part) + 1))
        for n, l in enumerate(part):
            if HEAD.match(l):
                raise Bad('page %d: another heading after %d lines' % (len(res) + 1, n + 1))
        res.append((m.group(2).strip(' '), part[1:]))
    return res


PAGEROW = re.compile(r'(?i)^.{28} *page *(;.*)?$')
SKIPROW = re.compile(r'(?i)^.{28} *skip +(\S+)')


def tokens(out, strict=False):
    """('row', text) ('blank',) ('eop',) of an endless listing, up to the summary; and the
    rest of its rows without blank ones"""
    end = out.summary_at
    lines = out.lines
    if not HEAD.match(lines[0]) or lines[1] != '':
        raise Bad('endless listing: begins with %r' % lines[:2])
    res = []
    blanks = 0
    for l in lines[2:end]:
        if l == '':
            blanks += 1
            continue
        m = SKIPROW.match(l)
        if strict and m and m.group(1).isdigit():
            n = int(m.group(1))
            if blanks != (n if n <= 100 else 0):
                raise Bad('endless listing: %d blank rows before %r' % (blanks, l))
        if HEAD.match(l):
            raise Bad('endless listing: another heading')
        if blanks:
            if PAGEROW.match(l):
                if blanks != 3:
                    raise Bad('endless listing: PAGE left %d blank lines' % blanks)
                res.append(('eop', None))
            elif SKIPROW.match(l):
                res += [('blank', None)] * blanks
            else:
                raise Bad('endless listing: blank lines before %r' % l)
            blanks = 0
        res.append(('row', l))
    return res, [l for l in lines[end:] if l]


def solid(s):
    return s.replace(' ', '')


class Reader:
    """the rows of the paged listing, one after the other"""

    def __init__(self, pgs, room):
        self.pgs, self.room = pgs, room
        self.i = self.j = 0
        self.title = None

    def next(self, what):
        while self.i < len(self.pgs) and self.j >= len(self.pgs[self.i][1]) and (self.room is None or self.j >= self.room):
            self.i += 1
            self.j = 0
        if self.i >= len(self.pgs) or self.j >= len(self.pgs[self.i][1]):
            raise Bad('the listing ends before %r' % what)
        self.j += 1
        self.title = self.pgs[self.i][0]
        return self.pgs[self.i][1][self.j - 1]

    def where(self):
        return 'page %d, row %d' % (self.i + 1, self.j)

    def newpage(self):
        """the rest of the page, if it was begun, is blank"""
        if self.room is None:
            for _ in range(3):
                if self.next('the break of an endless page') != '':
                    raise Bad('%s: no break' % self.where())
            return
        while 0 < self.j < self.room:
            if self.next('the end of the page') != '':
                raise Bad('%s: PAGE did not begin a new page' % self.where())

    def rest(self):
        res = []
        while self.i < len(self.pgs):
            res += self.pgs[self.i][1][self.j:]
            self.i += 1
            self.j = 0
        return [l for l in res if l]


def compare(ctx, a, b, p, w, title, stats, complete=False, strict=False):
    toks, atail = tokens(a.o, strict)
    pgs = pages(b.o, p, complete)
    for t, _ in pgs:
        if t != title:
            raise Bad('the title %r is shown as %r' % (title, t))
    rd = Reader(pgs, p - 4 if p else None)
    diff = False
    for kind, l in toks:
        if kind == 'eop':
            rd.newpage()
            stats['breaks'] = stats.get('breaks', 0) + 1
            continue
        if kind == 'blank':
            if rd.next('a blank row') != '':
                raise Bad('%s: expected a row that SKIP leaves blank' % rd.where())
            stats['skipped rows'] = stats.get('skipped rows', 0) + 1
            continue
        got = rd.next(l)
        if not diff:
            diff = True         # the first row has the sizes
            if not l.endswith(' page 0,999'):
                raise Bad('first row %r' % l)
            l = l[:28] + ' page %d,%d' % (p, w)
        if listing.ERR.match(l) or len(l) <= w:
            if got != l:
                raise Bad('%s: expected %r, found %r' % (rd.where(), l, got))
            stats['rows'] = stats.get('rows', 0) + 1
            continue
        if got != l[:w]:
            raise Bad('%s: expected %r, found %r' % (rd.where(), l[:w], got))
        left = solid(l[w:])
        while left:
            got = rd.next(left)
            g = solid(got)
            if len(got) > w or not g or not left.startswith(g):
                raise Bad('%s: expected %r to be continued in %d columns, found %r' % (rd.where(), left, w, got))
            left = left[len(g):]
            stats['continued rows'] = stats.get('continued rows', 0) + 1
    tail = rd.rest()
    if [l for l in tail[:3]] != atail[:3]:
        raise Bad('after the listing: expected %r, found %r' % (atail[:3], tail[:3]))
    if solid(''.join(tail)) != solid(''.join(atail)):
        raise Bad('the summary or the table differ from those on an endless page')
    if w >= 62 and any(len(l) > w for l in tail):
        raise Bad('a row of the table has more than %d columns' % w)
    stats['pages'] = stats.get('pages', 0) + len(pgs)


LONG = [lambda r: ' ' + 'w' * r.randrange(1, 200), lambda r: ' ' + ' '.join('x' * r.randrange(1, 12) for _ in range(r.randrange(1, 25))),
        lambda r: '\t' * r.randrange(1, 20) + 'after tabs', lambda r: ' ' * r.randrange(1, 150) + 'far', lambda r: ' ;;' + ' ; ' * r.randrange(30),
        lambda r: ' \xe9\xff\x80' * r.randrange(1, 20), lambda r: ' ' + 'y' * r.randrange(5, 60) + ' ' * r.randrange(1, 60) + 'z' * r.randrange(1, 60)]


def strew(rng, nodes, density, inmac, macs):
    res = []
    for n in nodes:
        if rng.random() < density and (macs or not inmac):
            q = rng.random()
            if q < .4:
                res.append(Text(rng.choice([' page', '\tPAGE', ' Page ; new'] if not inmac else [' page'])))
            elif q < .8:
                res.append(Text(' skip %d' % rng.choice([0, 1, 2, 5, 10, 40, 99, 100, 101])))
            else:
                t = rng.choice([';', ' db 5 ;', 'lc = 5;', ' ;'])
                if t[0] == 'l':
                    t = ';'
                t += rng.choice(LONG)(rng)
                # what is emitted is not of interest here
                res.append(Text(t[:240].replace('db 5', 'list on')))
        if isinstance(n, If):
            if n.taken:
                n.body = strew(rng, n.body, density, inmac, macs)
            else:
                n.other = strew(rng, n.other, density, inmac, macs)
        elif isinstance(n, Mac):
            n.body = strew(rng, n.body, density, True, macs)
        elif isinstance(n, Inc):
            n.body = strew(rng, n.body, density, inmac, macs)
        res.append(n)
    return res


def size(rng):
    return (rng.choice([0, 10, 11, 12, 15, 20, 30, 60, 66, 100, 199, 200, rng.randrange(10, 201)]),
            rng.choice([39, 40, 41, 45, 50, 58, 60, 61, 62, 63, 76, 80, 100, 132, 200, 250, 500, 999, rng.randrange(39, 140)]))


TITLES = ['', 'A', 'the title', 'x' * 30, 'page 17', '%d %s%n', 'a  b', "it's", 'Crasm 1.0: page 3', '30 chars, exactly, 1234567890!']


def one(ctx, k):
    rng = ctx.check.rng('one', k)
    p = gen.program(rng, n=rng.choice([0, 5, 15, 40, 80, 150]), far=(far := k % 5 == 0), cpu=None if far else '?', low=rng.random() < .3,
                    faults=rng.choice([0, 0, .05, .3]), warns=rng.choice([0, .05, .3]), long_asc=rng.choice([10, 60, 200]), ds_max=300)
    for x in p.lines:
        if x.err and x.op in ('page', 'list', 'nam') or x.warn and x.op in ('page', 'nam'):
            x.op, x.arg = 'frob', '5'
        if rng.random() < .3 and not x.err:
            x.comment = rng.choice(LONG)(rng)
        if len(x.text().encode()) > 240:
            x.comment = ''
    macs = rng.random() < .3    # then expansions are listed, and may contain PAGE and SKIP
    b = Builder(rng, p, rng.choice([0, .05, .1]), ('if', 'mac', 'inc'), 0 if macs else rng.choice([0, .05, .1]))
    tree = strew(rng, b.tree(p.lines, 0), rng.choice([0, 0, .02, .1]), False, macs)
    sim = Sim(rng, p)
    files = sim.main(with_defs(tree, sim, rng))
    title = rng.choice(TITLES)
    P, W = size(rng)
    lines = files['t.asm'].split('\n')
    extra = []
    if title:
        extra.append(' nam %s' % title)
    if macs or rng.random() < .3:
        extra.append(' mlist on')
    if rng.random() < .3:
        extra.append(' ilist on')
    lines[1:1] = extra
    opts = rng.choice([(), (), (), ('-s',), ('-x',), ('-l',), ('-l', '-s')])
    base = '\n'.join(lines)
    other = '\n'.join([' page %d,%d' % (P, W)] + lines[1:])
    check(ctx, 'one', files, base, other, opts, P, W, title)


def check(ctx, tag, files, base, other, opts, P, W, title):
    a = ctx.run({**files, 't.asm': base}, opts)
    b = ctx.run({**files, 't.asm': other}, opts)
    ctx.add('cases')
    ctx.seen('nontrivial', (other, tuple(sorted(files.items()))))
    for r in (a, b):
        if r.kind != 'exit' or r.code or r.o.fatal:
            ctx.violation(tag + ':end', 'ended with %s %s' % (r.describe(), r.o.fatal), r)
            return
    stats = {}
    try:
        if '-l' in opts:
            hidden(a, b, P, W, title, stats)
        else:
            compare(ctx, a, b, P, W, title, stats, '-x' in opts or b.o.nerr == 0, tag == 'breaks')
    except Bad as e:
        ctx.violation('%s:%s' % (tag, re.sub(r"[0-9]+|'.*'|\".*\"", '', str(e))[:40]), 'PAGE %d,%d: %s' % (P, W, e), b)
        return
    for s, v in stats.items():
        ctx.add(s, v)
    ctx.seen('sizes', (P, W))
    ctx.sample('PAGE %d,%d %s: %s' % (P, W, opts, stats))


def hidden(a, b, P, W, title, stats):
    """with -l: diagnostics and summary only, but on pages too"""
    pgs = pages(b.o, P, False)
    for t, _ in pgs:
        if t != title:
            raise Bad('the title %r is shown as %r' % (title, t))
    if a.o.diags != b.o.diags or (a.o.nerr, a.o.nwarn, a.o.success) != (b.o.nerr, b.o.nwarn, b.o.success):
        raise Bad('other reports than on an endless page')
    stats['pages'] = len(pgs)


def limits(ctx, item):
    """which sizes are legal"""
    p, w, how = item
    text = ' page %s,%s\n' % (how % p, how % w)
    n = 70
    text += ''.join('; line %d\n' % i for i in range(2, n))
    r = ctx.run(text, ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    p32, w32 = [(v & 0xffffffff) - (v >> 31 & 1) * 2**32 for v in (p, w)]
    legal = (p32 == 0 or 10 <= p32 <= 200) and 39 <= w32 <= 1000
    if r.kind != 'exit' or r.code or r.o.fatal or r.o.nerr != (not legal) or r.o.errlines() != [1] * (not legal):
        ctx.violation('limits', 'PAGE %d,%d is %s, the run said %s' % (p, w, 'legal' if legal else 'not legal', r.o.errors or r.describe()), r)
        return
    try:
        if legal:
            pgs = pages(r.o, p32, True)
            rows = [l for _, x in pgs for l in x if l]
            if [x for x in rows if '; line' in x] != ['                     %5d  ; line %d' % (i, i) for i in range(2, n)]:
                raise Bad('not all lines are listed')
        else:
            # as if the line were not there
            pages(r.o, 66, False)
    except Bad as e:
        ctx.violation('limits:pages', 'PAGE %d,%d: %s' % (p, w, e), r)
    ctx.add('legal' if legal else 'illegal')


def titles(ctx, item):
    t, spell = item
    text = spell % t + '\n' + ''.join('; line %d\n' % i for i in range(2, 200))
    r = ctx.run(text, ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    legal = len(t) <= 30
    if r.kind != 'exit' or r.code or r.o.fatal or r.o.errlines() != [1] * (not legal):
        ctx.violation('titles', 'the title %r (%d characters): %s' % (t, len(t), r.o.errors or r.describe()), r)
        return
    try:
        for got, _ in pages(r.o, 66, legal):
            want = t.strip() if legal else ''
            if got != want:
                raise Bad('title %r shown as %r' % (want, got))
    except Bad as e:
        ctx.violation('titles:shown', str(e), r)


def exact(ctx, item):
    """lines that end around the last column, and pages that end around the last row"""
    w, d, p, extra = item
    rng = ctx.check.rng('exact', item)
    lines = [' page 0,999']
    room = (p - 4) if p else 30
    for _ in range(room + extra - 1):
        n = max(1, w - 28 + d)
        lines.append(rng.choice([';' + 'c' * (n - 1), ';' + 'c' * (n - 2) + ' ' * 3 + 'd', ' db 5 ;' + 'x' * max(0, n - 7), 'l ' + '= 5 ;' + 'y' * max(0, n - 7)]) if n > 8
                     else ';' + 'c' * (n - 1))
        lines[-1] = lines[-1].replace('l = ', 'l%d = ' % len(lines)) if n < 200 else lines[-1].replace('l = ', ';l=')
        lines[-1] = lines[-1][:245]
    base = '\n'.join(lines) + '\n'
    check(ctx, 'exact', {}, base, ' page %d,%d\n' % (p, w) + '\n'.join(lines[1:]) + '\n', (), p, w, '')


def breaks(ctx, item):
    """PAGE and SKIP at every distance from the end of a page"""
    p, before, op = item
    lines = [' page 0,999'] + ['; %d' % i for i in range(before)] + [op, '; after', op, op, '; end']
    check(ctx, 'breaks', {}, '\n'.join(lines) + '\n', ' page %d,80\n' % p + '\n'.join(lines[1:]) + '\n', (), p, 80, '')


def later(ctx, item):
    """the sizes and the title hold from the first page, wherever they are given"""
    p, w, n, m = item
    lines = ['; %d' % i for i in range(n)] + [' page %d,%d' % (p, w), ' nam later'] + ['; more %d' % i for i in range(m)]
    r = ctx.run('\n'.join(lines) + '\n', ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    try:
        if not r.o.ok():
            raise Bad('refused: %s' % r.o.errors[:2])
        pgs = pages(r.o, p, True)
        if any(t != 'later' for t, _ in pgs):
            raise Bad('titles %s' % {t for t, _ in pgs})
        rows = [l for _, x in pgs for l in x if l]
        for i, t in enumerate(lines):
            if i >= len(rows) or rows[i] != '%26d  %s' % (i + 1, t):
                raise Bad('row %r instead of %r' % (rows[i:i + 1], t))
    except Bad as e:
        ctx.violation('later', 'PAGE %d,%d on line %d: %s' % (p, w, n + 1, e), r)


def go():
    c = Check('C22')
    c.parallel(one, range(c.pick(12000, 60000)))
    ps = [-1, 0, 1, 2, 8, 9, 10, 11, 66, 199, 200, 201, 202, 255, 256, 266, 1000, 65536 + 66, 2**31 - 1, 2**32 - 66, 2**31]
    ws = [-1, 0, 1, 30, 37, 38, 39, 40, 80, 132, 250, 998, 999, 1000, 1001, 1002, 1080, 5000, 65536 + 80, 2**31 - 1, 2**32 - 80, 2**31]
    c.parallel(limits, [(p, w, h) for p in ps for w in ws for h in ('%d', '0+%d') if h == '%d' or p in (9, 10, 200, 201)])
    texts = [('abcdefghij' * 5)[:n] for n in range(1, 42)] + TITLES[1:] + ['x' * 100, 'y' * 200, 'a' + ' ' * 28 + 'b', 'a' + ' ' * 29 + 'b', '\xe9' * 30, '\xe9' * 31]
    c.parallel(titles, [(t, s) for s in (' nam %s', ' NAM   %s  ', '\tNam\t%s', ' nam %s ; comment') for t in texts if ';' not in s or "'" not in t])
    c.parallel(exact, [(w, d, p, e) for w in (39, 40, 62, 76, 80, 132, 245, 270) for d in (-2, -1, 0, 1, 2, 11, 12, w - 28, w - 27) for p in (0, 10, 11, 40, 66, 200)
                       for e in (-1, 0, 1)])
    c.parallel(breaks, [(p, n, op) for p in (0, 10, 11, 12, 20, 66, 200) for n in range(0, 2 * (p or 10) + 2, 1 if p < 30 else 3)
                        for op in (' page', ' skip 1', ' skip 2', ' skip 0', ' skip 7', ' skip 99', ' skip 100', ' skip 101')])
    c.parallel(later, [(p, w, n, m) for p in (10, 13, 66, 200) for w in (45, 80, 999) for n in (0, 1, 5, 9, 100) for m in (0, 5, 6, 7, 60, 400)])
    # page numbers of every length
    c.parallel(later, [(p, w, 3, m) for p, w in ((10, 60), (11, 45), (200, 80)) for m in (650, 7000, 70000) + (() if c.quick() else (700000,))], chunk=1)
    c.finish('a listing with its pages compared with the one on an endless page, counted by its files and sizes', need=2000)


main(go)
