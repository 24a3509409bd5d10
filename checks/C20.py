#!/usr/bin/env python3
"""C20: diagnostics are complete, exact and correctly counted.

Online checker of the listing: every report must belong to a line that is known to be
faulty (or to deserve a warning), every such line must have exactly one error report,
the first source row after it must be that very line, the totals of the summary must
equal the reports seen, and the other lines must have been assembled as usual.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import foldcheck  # noqa: E402
import gen  # noqa: E402
import listing  # noqa: E402
import objfile  # noqa: E402

# one error each, wherever they stand ('good' is a label, the processor is set)
FAULTS = r''' frobnicate
 frobnicate 5
lab frobnicate 5
 db undefd
 dw 5+
 dw +
 dw 5*
 db 12A
 db 5 5
 db 1,,2
 db 1,
 db ,1
 db
 dw
 dl
 ddb
 ds
 ds -1
 ds 5,
 ds 5,undefd
 ds undefd
 ds 1,2,3
 asc
 asc abc
 asc 5
 asc "abc
 asc 'a"
 asc "a","b"
 align
 align both
 align 5
 dl (5
 dl 5)
 dl $
 dl $G
 dl 0x
 dl 12H3
 dl %12
 dl 8q
 dl $100000000
 dl 4294967296
 dl 'abcde'
 dl '\q'
 dl "abc
 code 5
 dummy x
 fail
 fail told so
 fail "x"
 list
 list maybe
 list on,off
 mlist 1
 clist
 ilist perhaps
 skip
 skip db
 page 5
 page 5,5
 page 9,80
 page 201,80
 page 60,38
 page 60,1001
 page 60,80,1
 page db,ds
 nam
 nam 1234567890123456789012345678901
 output
 output ELF
 output S
 include
 include no/such/file
 cpu
 cpu 8080
 cpu Z80 x
 equ 5
lab equ
lab =
 = 5
lab = 5+
lab = undefd
lab = (5
* =
* = undefd
5lab
5lab db 1
la-b db 1
la$b
db
db = 5
db db 1
good db 1
good
good = 5
list db 1
lab list on
lab page 60,80
lab nam x
lab include x
lab code
lab cpu 6502
a234567890b234567890c234567890d234567890e234567890 db 1
 dl lo
 dl lo(
 dl hi()
 dl 1<<-1
 dl db
 dl .nolocal
 dl **
 dl 3*
 dl 3{1}
 dl addr(5)
 dl bit(5)
 db "
 db ' '''.rstrip(' ').split('\n')
# only where they do not meet another conditional
COND = [' if 5<>', ' if =5', ' if undefd', ' if 1=2=3', ' if "abc', 'lab if 1', ' else', ' else 5', ' endc', ' endc x', 'lab endc',
        ' macro', ' m macro 5']
CPUF = {'6502': ''' lda
 lda #
 lda #x
 lda (5,y)
 lda 5,z
 lda 5,x,y
 sta #5
 stx 5,x
 asl #5
 bcc 5000
 bcc undefd
 jmp
 jmp #5
 jmp (5),y
 rts 5
 nop a
 bra *
 stz 5
 ldx 5,x
 ldaa #5
 ld a,5
 inc a
 lda #undefd
 lda undefd
 lda 5+
 lda (5
 lda )
 tax 1
 skip x
 page a,x
x
a = 5''', '6801': ''' ldaa
 ldaa #
 ldaa 5,y
 staa #5
 lda #5
 bcc 5000
 jmp
 jmp #5
 rts 5
 mul 5
 ldd
 ldab undefd
 tst #5
 clr #5
 asr 5,x,x
 bset 5
 psha 5
 jsr #4''', 'Z80': ''' ld
 ld a
 ld a,
 ld ,a
 ld a,b,c
 ld 5,a
 ld (5),b
 ld a,(de+1)
 ld hl,de
 ld (hl),(hl)
 ld ix,iy
 add
 add hl,ix
 add ix,hl
 inc
 inc 5
 jr po,5
 jr *+200
 jp (hl),5
 bit 8,a
 bit a,a
 im 3
 in b,(5)
 out (5),b
 push sp
 push a
 ret x
 djnz
 djnz *-500
 ld a,undefd
 call
 and hl
 lda #5
 nop 5
 skip hl
b db 1
hl = 5'''}
CPUF = {c: t.split('\n') for c, t in CPUF.items()}
# one warning each
WARNS = {None: [' db 256', ' db 1,300,2', ' db (5)', ' dw $12345', ' dw (5)', ' dl (5)', ' skip -1', ' skip 101', ' db "ab"', ' ddb $10000'],
         '6502': [' lda #256', ' ldx #$fff', ' lda #(5)'], '6801': [' ldaa #256', ' ldab (5)'],
         'Z80': [' ld a,256', ' cp 300', ' ld (ix+128),a', ' ld b,(iy-129)']}


def expand(t):
    return t.expandtabs(8)


class Monitor:
    """reads a listing that is printed with PAGE 0,w; wanted: the reports that are to
    come, in order: (kind, line number, text of the line or None if it is not listed)"""

    def __init__(self, ctx, r, tag):
        self.ctx, self.r, self.tag = ctx, r, tag

    def bad(self, what):
        self.ctx.violation(self.tag, what, self.r)
        return False

    def check(self, wanted, listed=True, warnings=True, nwarn=None):
        """listed: the run had a listing; warnings: warnings are printed"""
        r, o = self.r, self.r.o
        if r.kind != 'exit' or r.code or o.fatal:
            return self.bad('ended with %s %s' % (r.describe(), o.fatal))
        want = [w for w in wanted if w[0] == 'ERROR' or (warnings and listed)]
        got = [(k, n) for k, n, _ in o.diags]
        if got != [w[:2] for w in want]:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b[:2]), min(len(got), len(want)))
            return self.bad('report %d: expected %s, found %s (%d expected, %d found)' % (
                i + 1, want[i:i + 1], o.diags[i:i + 1], len(want), len(got)))
        ne = sum(w[0] == 'ERROR' for w in wanted)
        nw = sum(w[0] == 'WARNING' for w in wanted) if warnings else 0
        if nwarn is not None:
            nw = nwarn
        if o.nerr != ne or o.nwarn != nw:
            return self.bad('the summary says %s errors and %s warnings; %d and %d are right' % (o.nerr, o.nwarn, ne, nw))
        if o.nsummaries != 1 or o.success + o.nocode != 1 or bool(o.success) != (ne == 0):
            return self.bad('verdict: %d successes, %d failures for %d errors' % (o.success, o.nocode, ne))
        self.ctx.add('reports', len(got))
        for k, n, m in o.diags:
            self.ctx.seen('messages', (k, m if not m.startswith('T') else m[:9]))
        # the row after each report
        rows = listing.rows(o)
        j = 0
        for i, row in enumerate(rows):
            if row.kind != 'diag':
                continue
            text = want[j][2]
            num = want[j][1]
            j += 1
            if text is None:
                continue
            k = i + 1
            while k < len(rows) and (rows[k].kind == 'code' or
                                     rows[k].kind == 'diag' and rows[k].extra[1] == num and rows[k].extra[0] != row.extra[0]):
                k += 1
            if k >= len(rows) or rows[k].kind != 'line':
                return self.bad('the report %r is not followed by its line' % row.raw)
            if rows[k].text.rstrip() != expand(text).rstrip() or rows[k].num not in (num, None):
                return self.bad('the report %r is followed by %r instead of line %d, %r' % (row.raw, rows[k].raw, num, text))
        return True


def options(rng):
    return rng.choice([(), (), ('-l',), ('-s',), ('-x',), ('-l', '-s')])


def random_program(ctx, k):
    rng = ctx.check.rng('r', k)
    faults = rng.choice([0, .02, .1, .5])
    p = gen.program(rng, n=rng.choice([3, 15, 40, 100]), faults=faults, warns=rng.choice([0, .02, .2]), undef=False,
                    low=rng.random() < .3, far=k % 5 == 0, cpu=None if k % 5 == 0 else '?', long_asc=rng.choice([10, 90]))
    for x in p.lines:
        if x.err and x.op == 'page':
            # would be warned of as well: it is not the first PAGE
            x.op, x.arg = 'frob', '5'
    head = ' page 0,999\n'
    lines = [head[:-1]] + [x.text() for x in p.lines]
    # where the listing is off, errors are printed and warnings are not
    off = set()
    files = []
    num = []
    on = True
    quiet = rng.random() < .3
    for i, t in enumerate(lines):
        if quiet and i and rng.random() < .08:
            on = not on
            files.append(' list ' + ('on' if on else 'off'))
        files.append(t)
        num.append(len(files))
        if not on:
            off.add(len(files))
    text = '\n'.join(files) + '\n'
    opts = options(rng)
    ls = '-l' not in opts
    r = ctx.run(text, opts)
    ctx.add('cases')
    wanted = []
    nw = 0
    for i, x in enumerate(p.lines):
        n = num[i + 1]
        if x.err:
            wanted.append(('ERROR', n, files[n - 1]))
        elif x.warn:
            nw += 1
            if n not in off:
                wanted.append(('WARNING', n, files[n - 1]))
    if '-s' in opts:
        wanted = [w for w in wanted if w[0] == 'ERROR']
        nw = 0
    m = Monitor(ctx, r, 'random')
    if not m.check(wanted, ls, '-s' not in opts, nwarn=nw):
        return
    ctx.seen('nontrivial', text if wanted else None)
    if wanted:
        ctx.sample('%d reports of %d lines' % (len(wanted), len(files)))
    if ls and not off:
        bad = foldcheck.compare(foldcheck.listed(r.o), foldcheck.wanted(p))
        if bad:
            m.bad('the lines around the reports: ' + bad)
    if not p.errors():
        st = p.stream()
        if r.o.length is None or r.o.length != (len(st), len(st)):
            m.bad('code length %s of %d bytes' % (r.o.length, len(st)))
            return
        ctx.add('lengths')
        em = [x for x in p.lines if x.data or x.kind == 'org']
        if em and em[-1].data and em[-1].code:
            a = em[-1].addr + len(em[-1].data) - 1
            if r.o.last != (a, a):
                m.bad('last address %s instead of %X' % (r.o.last, a))
            ctx.add('last_addresses')


PLACES = ['main', 'first', 'if', 'else', 'deep', 'inc', 'inc2', 'mac', 'mac2', 'mac9', 'macif', 'incmac', 'skipped', 'uncalled', 'afterexit', 'afterexit2', 'incexit', 'end']


def single(ctx, item):
    """one faulty line in every place; the lines around it go on as if nothing was"""
    cpu, line, kind, place, opts = item
    head = [' page 0,250', ' cpu %s' % cpu, ' output scode', '* = 5', 'good db 1']
    if 'page ' in line:
        # a second PAGE would be warned of
        head[0] = '; '
        opts = tuple(set(opts) | {'-l'})
    files = {}
    n = None            # number the report is to carry
    pre, post = [], []  # bytes before and after
    body = head[:]
    if place == 'main':
        body += [line]
        n = len(body)
    elif place == 'first':
        # many lines before
        body += ['; %d' % i for i in range(995)] + [line]
        n = len(body)
    elif place == 'if':
        body += [' if 1', line]
        n = len(body)
        body += [' else', ' frob', ' endc']
    elif place == 'else':
        body += [' if 0', ' frob', ' else', line]
        n = len(body)
        body += [' endc']
    elif place == 'deep':
        body += [' if 1', ' if 2>1', ' if 0', ' frob', ' else', ' if 1', line]
        n = len(body)
        body += [' endc', ' endc', ' endc', ' endc']
    elif place == 'inc':
        files['f'] = ' db 2\n%s\n db 3\n' % line
        body += [' include f']
        n = 2
    elif place == 'inc2':
        files['f'] = ' db 2\n include g\n db 3\n'
        files['g'] = '\n\n db 4\n' + line + '\n db 4'
        body += [' include f']
        n = 4
    elif place == 'mac':
        body += ['doit macro', ' db 2', line, ' db 3', ' endm', ' doit']
        n = len(body)
    elif place == 'mac2':
        body += ['inner macro', ' db 2', line, ' db 3', ' endm', 'doit macro', ' db 4', ' inner', ' db 4', ' endm', ' doit']
        n = len(body)
    elif place == 'mac9':
        depth = len(line) % 6 + 3       # calls in calls, up to nearly the limit
        body += ['m0 macro', ' db 2', line, ' db 3', ' endm']
        for i in range(1, depth):
            body += ['m%d macro' % i, ' db 4', ' m%d' % (i - 1), ' db 4', ' endm']
        body += [' m%d' % (depth - 1)]
        n = len(body)
    elif place == 'macif':
        body += ['doit macro', ' if \\1', line, ' endc', ' db 3', ' endm', ' doit 1']
        n = len(body)
    elif place == 'incmac':
        body += ['doit macro', line, ' db 3', ' endm', ' include f']
        files['f'] = ' db 2\n\n doit\n db 3\n'
        n = 3
    elif place in ('afterexit', 'afterexit2'):
        # behind a macro that was left from a file
        files['f'] = ' db 2\n\n' + ('\n exitm\n db 2\n\n\n' if place == 'afterexit' else '\n include g\n db 2\n\n')
        files['g'] = '\n\n\n\n\n if 1\n exitm\n endc\n frob\n'
        body += ['doit macro', ' include f', ' frob', ' endm', ' doit', line]
        n = len(body)
    elif place == 'incexit':
        # in the file that leaves the macro
        files['f'] = ' db 2\n\n%s\n exitm\n frob\n' % line
        body += ['doit macro', ' include f', ' frob', ' endm', ' doit']
        n = 3
    elif place == 'skipped':
        body += [' if 0', line, ' endc']
    elif place == 'uncalled':
        body += ['doit macro', line, ' endm']
    elif place == 'end':
        pass
    body += [' db 7,8', 'end db 9']
    if place == 'end':
        body += [line]
        n = len(body)
    text = '\n'.join(body) + ('\n' if place != 'end' else '')
    files['t.asm'] = text
    r = ctx.run(files, opts)
    ctx.add('cases')
    ctx.seen('nontrivial', (cpu, line, place, opts))
    shown = kind == 'ERROR' or place in ('main', 'first', 'if', 'else', 'deep', 'end', 'afterexit', 'afterexit2')
    wanted = []
    nw = None
    if n is not None:
        if shown:
            wanted = [(kind, n, line)]
        elif kind == 'WARNING':
            nw = 0 if '-s' in opts else 1
            # a macro's warning is printed although its line is not
            wanted = [w for w in [('WARNING', n, None)] if 'WARNING' in r.o.text.split('WARNINGS:')[0]]
    if '-s' in opts:
        wanted = [w for w in wanted if w[0] == 'ERROR']
    m = Monitor(ctx, r, 'single')
    if not m.check(wanted, '-l' not in opts, '-s' not in opts, nwarn=nw):
        return
    if (r.obj is None) != (n is not None and kind == 'ERROR'):
        m.bad('object file: %s' % (r.obj is not None))
        return
    if '-l' not in opts:
        rows = listing.rows(r.o)
        got = [x.data for x in rows if x.data]
        if got[-2:] != [b'\7\x08', b'\x09'] and place != 'end':
            m.bad('the lines after the faulty one were not assembled: %s' % got[-3:])
        elif b'\1' not in got[:2]:
            m.bad('the lines before the faulty one were not assembled: %s' % got[:3])


# at the limits, but on the right side of them
EDGES = {None: [' skip 0', ' skip 100', ' skip 1', ' db 255', ' db 0', ' dw 65535', ' ddb 65535', ' dl $ffffffff', ' dl 0', ' ds 0', ' ds 0,255', ' ds 1,0',
                ' page 10,39', ' page 200,1000', ' page 0,999', ' page', ' nam ' + 'x' * 30, ' nam x', ' align odd', ' align even', ' asc ""', ' db ""', ' list on',
                ' mlist off', ' clist on', ' ilist off', 'sym = 5', 'sym equ $7fffffff', ' output scode', ' dl 4294967295', " dl 'abcd'", ' db 1<<31>>31&1', 'l' + 'x' * 47,
                ' db lo(-1)', ' if 1', ' if 0', ' db ((5))+(1)', ' db (1)+(2)', ' code', '* = *', '; end', ' ', ''],
         '6502': [' lda #255', ' lda $ff,y', ' jmp $ffff', ' bne *+129', ' bne *-126', ' ldx $ff', ' lda ($ff,x)', ' lda ($ff),y', ' jmp ($ffff)', ' asl'],
         '6801': [' ldaa #255', ' ldaa 255,x', ' ldx #$ffff', ' bra *+129', ' bra *-126', ' jmp ,x', ' subd #65535'],
         'Z80': [' ld a,255', ' ld (ix+127),a', ' ld (ix-128),255', ' jr *+129', ' jr *-126', ' djnz *', ' rst 7', ' rst $38', ' im 2', ' bit 7,(iy+127)', ' in a,(255)',
                 ' ld hl,65535', ' ld (65535),a', ' call 65535', ' add a,255']}


def edge(ctx, item):
    """a correct line is not reported, however near a limit it is"""
    cpu, line, place = item
    end = [' endc'] if ' if ' in line else []
    files = {}
    ls = [line] + end
    head = [' cpu %s' % cpu, '* = $200']
    if place == 'mac':
        body = head + ['m macro'] + ls + [' endm', ' m']
    elif place == 'inc':
        files['f'] = '\n'.join(ls)
        body = head + [' include f']
    elif place == 'if':
        body = head + [' if 1'] + ls + [' else', ' frob', ' endc']
    elif place == 'macinc':
        files['f'] = '\n'.join(ls) + '\n'
        body = head + ['m macro', ' include f', ' endm', ' m']
    else:
        body = head + ls
    r = ctx.run(dict(files, **{'t.asm': '\n'.join(body) + '\n'}), ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    if r.kind != 'exit' or r.code or not r.o.ok() or r.o.nerr or r.o.nwarn or r.o.errors or r.o.warnings:
        ctx.violation('edge', 'correct line %r (%s): %s errors, %s warnings %s %s' % (line, place, r.o.nerr, r.o.nwarn, r.o.errors[:2], r.o.warnings[:2]), r)


def amount(ctx, item):
    """totals of any size"""
    ne, nw, lines = item
    body = [' page 0,250', '* = 0']
    e = [' frob'] * ne + [' db 256'] * nw + [' db 1'] * lines
    ctx.check.rng('am', item).shuffle(e)
    body += e
    r = ctx.run('\n'.join(body) + '\n', ())
    wanted = [(('ERROR' if t == ' frob' else 'WARNING'), i + 1, None) for i, t in enumerate(body) if t in (' frob', ' db 256')]
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    Monitor(ctx, r, 'amount').check(wanted)


def far(ctx, item):
    """a report, a macro call and an include behind any number of lines"""
    n, how = item
    rng = ctx.check.rng('far', item)
    files = {'f.inc': '; f\n frob 1\n db 256\n'}
    body = [' page 0,250', '* = 0', 'mm macro', ' db 256', ' endm']
    pad = ['', '; c', ' db 1 ; d', 'x%d', ' ']
    body += [('x%d' % i if t == 'x%d' else t) for i, t in ((i, rng.choice(pad[:3] if n > 3000 else pad)) for i in range(n - 10 - len(body)))]
    wanted = []
    unlisted = 0

    def say(kind, text):
        body.append(text)
        wanted.append((kind, len(body), text))
    for _ in range(20):
        q = rng.choice(how)
        if q == 'e':
            say('ERROR', ' frob')
        elif q == 'w':
            say('WARNING', ' db 256 ; w')
        elif q == 'm':
            body.append(' mm')
            wanted.append(('WARNING', len(body), None))
        elif q == 'i':
            body.append(' include f.inc')
            wanted.append(('ERROR', 2, ' frob 1'))
            unlisted += 1
        elif q == 'c':
            body.append(' if 0')
            body.append(' frob')
            body.append(' endc')
        else:
            body.append(' db 5')
    files['t.asm'] = '\n'.join(body) + '\n'
    r = ctx.run(files, ())
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    # warnings of files that are not listed are counted only
    Monitor(ctx, r, 'far').check(wanted, nwarn=sum(w[0] == 'WARNING' for w in wanted) + unlisted)
    rows = [x for x in listing.rows(r.o) if x.kind == 'line' and x.num is not None]
    want = list(range(1, len(body) + 2))    # the last line ends with a newline
    got = [x.num for x in rows]
    if 'i' not in how and 'c' not in how and got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.violation('far:numbers', 'row %d carries number %s' % (i + 1, got[i:i + 1]), r)


def totals(ctx, item):
    """the last address and the number of code bytes, whatever their size"""
    k, top = item
    rng = ctx.check.rng('totals', item)
    body = []
    n = 0
    at = None
    code = True
    opt = rng.choice([(), ('-l',)])
    obj = rng.random() < .3
    for _ in range(rng.choice([1, 2, 5])):
        if at is None or rng.random() < .5:
            at = rng.choice([0, 1, 0xfff0, 0x7fff0000, 0x7fffffff, 0x80000000, 0xf0000000, rng.randrange(1 << 31)])
            body.append('* = $%x' % at)
        if rng.random() < .3:
            code = rng.random() < .7
            body.append(' code' if code else ' dummy')
        size = rng.choice([1, 255, 256, 257, 65535, 65536, 65537, top] if not obj else [1, 300, 65537])
        size = min(size, (1 << 32) - at)
        body.append(' ds %d' % size)
        at += size
        n += size * code
    r = ctx.run('\n'.join(body) + '\n', opt, obj=obj)
    ctx.add('cases')
    ctx.seen('nontrivial', ('totals', at, n))
    if not r.o.ok():
        ctx.violation('totals:refused', 'refused: %s' % r.o.errors[:2], r)
    elif r.o.last != (at - 1, at - 1) or r.o.length != (n, n):
        ctx.violation('totals', '%s: the summary says last address %s and length %s; %x and %d are right' % (body, r.o.last, r.o.length, at - 1, n), r)


WORDS = {'6502': ['lda', 'nop', 'jmp', 'brk', 'x', 'y', 'bcc', 'tya'], '6801': ['ldaa', 'nop', 'abx', 'jmp', 'rts', 'psha', 'bcc', 'mul'],
         'Z80': ['ld', 'nop', 'a', 'hl', 'ix', 'jr', 'exx', 'ldir']}


def override(ctx, k):
    """symbols above the CPU directive that have names of words of this processor: one warning each"""
    rng = ctx.check.rng('override', k)
    cpu = rng.choice(sorted(WORDS))
    other = {'6502': ['ldaa', 'abx', 'ldir', 'exx', 'hl', 'ld'], '6801': ['lda', 'tya', 'y', 'ldir', 'ld'], 'Z80': ['lda', 'ldaa', 'tya', 'x', 'y', 'abx', 'mul']}[cpu]
    ws = rng.sample(WORDS[cpu], rng.randrange(0, 5)) + rng.sample(other, rng.randrange(0, 4))
    ws = list(dict.fromkeys(ws))
    rng.shuffle(ws)
    body = [' page 0,250', '* = 0']
    data = b''
    use = []
    for i, w in enumerate(ws):
        w = rng.choice([w, w.upper()])
        q = rng.randrange(3)
        if q == 0:
            body.append('%s = %d' % (w, i + 5))
            use.append((' db %s' % w, bytes([i + 5])))
        elif q == 1:
            use.append((' db %s' % w, bytes([len(data)])))
            body.append('%s db 7' % w)
            data += b'\7'
        else:
            body += ['%s macro' % w, ' db %d' % (i + 50), ' endm']
            use.append((' %s' % w, bytes([i + 50])))
    where = rng.choice(['main', 'if', 'mac', 'inc'])
    files = {}
    if where == 'mac':
        body += ['mm macro', ' cpu ' + cpu, ' endm', ' mm']
        n = len(body)
    elif where == 'inc':
        files['f'] = ';\n cpu %s\n' % cpu
        body += [' include f']
        n = 2
    elif where == 'if':
        body += [' if 1', ' cpu ' + cpu, ' endc']
        n = len(body) - 1
    else:
        body.append(' cpu ' + cpu)
        n = len(body)
    body.append(' output scode')
    for u, b in use:
        body.append(u)
        data += b
    nw = sum(w in WORDS[cpu] for w in ws)
    files['t.asm'] = '\n'.join(body) + '\n'
    opts = rng.choice([(), (), ('-s',), ('-l',)])
    r = ctx.run(files, opts)
    ctx.add('cases')
    ctx.seen('nontrivial', tuple(body))
    wanted = [('WARNING', n, None)] * nw
    m = Monitor(ctx, r, 'override')
    if where == 'inc':
        ok = m.check([], '-l' not in opts, '-s' not in opts, nwarn=0 if '-s' in opts else nw)
    else:
        ok = m.check(wanted, '-l' not in opts, '-s' not in opts, nwarn=0 if '-s' in opts else nw)
    if ok:
        got = bytes(b for _, b in objfile.parse(r.obj).stream()) if r.obj else b''
        if got != data:
            m.bad('the symbols above the CPU directive give %s instead of %s' % (got.hex(), data.hex()))


PIECES = [' db 1', ' db 1,2', '* = $200', '* = 5', ' org 7', 'l%d', 'l%d db 1', 'k%d = 5', 'k%d = l%d', ' align even', ' align odd', ' ds 3', ' dummy',
          ' code', ' asc "abc"', 'm%d macro\n db \\1\n endm', ' m%d 3', ' if 1\n db 9\n endc', ' if k%d\n db 7\n endc', ' dw *', ' db .a', ' frob', ' db 300',
          ' list off', ' list on', ' mlist on', ' mlist off', ' clist off', ' clist on', ' ilist on', ' skip 2', ' lda #5', ' ld a,5', ' ldaa #5', ' bne *', ' jr *',
          ' if 1', ' endc', ' else', ' exitm', ' endm', ' dl l%d', 'q%d equ db', ' q%d 5', 'db%d = 3', ' dw k%d', ' lda k%d', ' fail x', ' ds 0', ' asc ""',
          'k%d = *', ' ds k%d', '* = k%d', '* = *+3', ' include nofile', ' include f.asm', ' page', ' output hex', ' ds k%d,300', ' dw 65536', ' lda <k%d', '12x db 1']


def prefix(ctx, item):
    """what is reported and listed for a line does not depend on unrelated lines below it"""
    rng = ctx.check.rng('prefix', item)

    def piece(tail):
        while True:
            t = rng.choice(PIECES)
            if not tail or 'output' not in t:
                break
        while '%d' in t:
            t = t.replace('%d', ('z%d' if tail else '%d') % rng.randrange(3), 1)
        return t
    head = [' page 0,250'] + rng.choice([[], [' cpu 6502'], [' cpu z80'], [' cpu 6801'], [' cpu 65c02', '* = $8000']])
    head += [piece(False) for _ in range(rng.randrange(1, 10))] + [' fail the end']
    tail = [piece(True) for _ in range(rng.randrange(1, 8))]
    f = ' db 7\nin db 8\n'
    got = []
    for t in (head, head + tail):
        r = ctx.run({'t.asm': '\n'.join(t) + '\n', 'f.asm': f}, (), obj=False)
        if r.kind != 'exit':
            ctx.violation('prefix:end', 'ended with %s' % r.describe(), r)
            return
        at = [i for i, l in enumerate(r.o.lines) if l.endswith('ERROR: The end')]
        got.append([l for l in r.o.lines[:at[0]] if l.strip()] if at else None)
    ctx.add('cases')
    if None in got:
        if got[0] != got[1]:
            # an open IF or macro definition takes the last line
            ctx.add('prefix_open')
        return
    ctx.add('prefix_lines', len(got[0]))
    if got[0] != got[1]:
        d = next((a, b) for a, b in zip(got[0] + ['-'], got[1] + ['-']) if a != b)
        ctx.violation('prefix', 'the lines %s change %r to %r above them' % (tail, *d), r)
    else:
        ctx.seen('nontrivial', tuple(head + tail))


def go():
    c = Check('C20')
    c.parallel(prefix, range(c.pick(4000, 60000)))
    c.parallel(override, range(c.pick(600, 4000)))
    c.parallel(totals, [(k, 0x1000001 if k % 9 == 0 else 0x10000) for k in range(c.pick(500, 3000))] + ([] if c.quick() else [(k, 0x10000001) for k in range(8)]), chunk=4)
    items = []
    rng = c.rng('items')
    for cpu in CPUF:
        for place in PLACES:
            ls = FAULTS + CPUF[cpu] + (COND if place in ('main', 'first', 'inc', 'inc2', 'end', 'mac', 'mac2', 'mac9', 'incmac', 'incexit', 'afterexit',
                                                         'afterexit2') else [])
            for l in ls:
                if l in (' cpu', ' cpu 8080', ' cpu Z80 x', 'lab cpu 6502') and place == 'skipped':
                    pass
                for o in [(), ('-l',), ('-s',)] if not c.quick() else [rng.choice([(), (), ('-l',), ('-s',)])]:
                    items.append((cpu, l, 'ERROR', place, o))
            for l in WARNS[None] + WARNS[cpu]:
                for o in [(), ('-l',), ('-s',)]:
                    items.append((cpu, l, 'WARNING', place, o))
    c.parallel(single, items)
    c.parallel(edge, [(cpu, l, p) for cpu in CPUF for l in EDGES[None] + EDGES.get(cpu, []) for p in ('main', 'mac', 'inc', 'if', 'macinc')])
    c.parallel(random_program, range(c.pick(6000, 60000)))
    am = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (9, 10, 5), (99, 100, 0), (999, 1000, 0), (1000, 999, 3), (9999, 9999, 0), (10000, 10001, 0),
          (32767, 32768, 0), (65535, 65536, 10), (65536, 65537, 0)] + [(1 << i, (1 << i) + 1, 0) for i in range(1, 15)] + \
        [(n, n + 256, 2) for n in (10, 100, 200, 255, 257, 300, 500, 511, 1000, 2000)]
    c.parallel(amount, am if c.quick() else am + [(100000, 100000, 0), (1000001, 3, 0)], chunk=1)
    ns = [100, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 131072] + ([] if c.quick() else [262144, 999999, 1000000])
    c.parallel(far, [(n, h) for n in ns for h in ('ew.', 'ewm.', 'ewmi.', 'ewmic.')], chunk=1)
    c.finish('a program whose faulty and whose warned lines are known; counted by text, place and options', need=2000)


main(go)
