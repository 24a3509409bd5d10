#!/usr/bin/env python3
"""C26: the CPU directive selects exactly the named processor.

Programs of lines that several processors read differently (or not at all), with the CPU
directive in every kind of place.  Oracle: the bytes or the refusal of each line under
each processor, written down here by hand; the byte order; the default format.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import objfile  # noqa: E402
import respell  # noqa: E402

F6 = ['6500', '6502', '65C02']
F68 = ['6800', '6801', '6803']
# line: family -> bytes; a processor that is not listed refuses it
LINES = {
    'nop': ('ea', '01', '00'), 'rti': ('40', '3b', None), 'rts': ('60', '39', None), 'bne *': ('d0fe', '26fe', None), 'beq *': ('f0fe', '27fe', None),
    'clc': ('18', '0c', None), 'sec': ('38', '0d', None), 'cli': ('58', '0e', None), 'sei': ('78', '0f', None), 'clv': ('b8', '0a', None),
    'and 5': ('2505', None, 'e605'), 'ldx #5': ('a205', 'ce0005', None), 'jsr $1234': ('203412', 'bd1234', None), 'jmp $1234': ('4c3412', '7e1234', None),
    'tsx': ('ba', '30', None), 'txs': ('9a', '35', None), 'dex': ('ca', '09', None), 'inx': ('e8', '08', None), 'pha': ('48', None, None),
    'tab': (None, '16', None), 'wai': (None, '3e', None), 'daa': (None, '19', '27'), 'swi': (None, '3f', None), 'ldaa #5': (None, '8605', None),
    'lda #5': ('a905', None, None), 'sbc #5': ('e905', None, None), 'cmp #5': ('c905', None, None), 'brk': ('00', None, None), 'bsr *': (None, '8dfe', None),
    'pop ix': (None, None, 'dde1'), 'cpl': (None, None, '2f'), 'push bc': (None, None, 'c5'), 'ret': (None, None, 'c9'), 'call 5': (None, None, 'cd0500'),
    'or a': (None, None, 'b7'), 'halt': (None, None, '76'), 'ldir': (None, None, 'edb0'), 'exx': (None, None, 'd9'), 'djnz *': (None, None, '10fe'),
    'ld a,5': (None, None, '3e05'), 'jr *': (None, None, '18fe'), 'ei': (None, None, 'fb'), 'bit 3,b': (None, None, 'cb58'), 'inc hl': (None, None, '23'),
    'dw $1234': ('3412', '1234', '3412'), 'ddb $1234': ('1234', '3412', '1234'), 'dl $12345678': ('78563412', '12345678', '78563412'), 'db 7': ('07', '07', '07'),
    'jmp ($1234)': ('6c3412', '7e1234', None), 'asl a': ('0a', None, None), 'asla': (None, '48', None), 'ldx 5,y': ('b605', None, None), 'ldx 5,x': (None, 'ee05', None),
    'aba': (None, '1b', None), 'scf': (None, None, '37'), 'ex de,hl': (None, None, 'eb'), 'tax': ('aa', None, None), 'iny': ('c8', None, None),
}
SOME = {
    'ror a': {'6502': '6a', '65C02': '6a'}, 'bra *': {'65C02': '80fe', **dict.fromkeys(F68, '20fe')}, 'phx': {'65C02': 'da'}, 'ply': {'65C02': '7a'},
    'stz 5': {'65C02': '6405'}, 'trb 5': {'65C02': '1405'}, 'tsb $1234': {'65C02': '0c3412'}, 'dec a': {'65C02': '3a', 'Z80': '3d'}, 'inc a': {'65C02': '1a', 'Z80': '3c'},
    'abx': {'6801': '3a', '6803': '3a'}, 'mul': {'6801': '3d', '6803': '3d'}, 'ldd #$1234': {'6801': 'cc1234', '6803': 'cc1234'}, 'brn *': {'6801': '21fe', '6803': '21fe'},
    'pshx': {'6801': '3c', '6803': '3c'}, 'lsrd': {'6801': '04', '6803': '04'}, 'std 5': {'6801': 'dd05', '6803': 'dd05'}, 'lda (5)': {'65C02': 'b205'},
}
TABLE = {}
for _l, (_a, _b, _c) in LINES.items():
    TABLE[_l] = {**{c: _a for c in F6 if _a}, **{c: _b for c in F68 if _b}, **({'Z80': _c} if _c else {})}
TABLE.update(SOME)
# words of one processor, names for everybody else
WORDS = {'ldaa': F68, 'ldab': F68, 'tab': F68, 'swi': F68, 'lda': F6, 'pha': F6, 'sta': F6, 'ld': ['Z80'], 'push': ['Z80'], 'ldir': ['Z80'], 'hl': ['Z80'], 'ix': ['Z80'],
         'bc': ['Z80'], 'nz': ['Z80'], 'a': F6 + ['Z80'], 'b': ['Z80'], 'phx': ['65C02'], 'stz': ['65C02'], 'mul': ['6801', '6803'], 'abx': ['6801', '6803'], 'sp': ['Z80'],
         'iy': ['Z80'], 'ldd': ['6801', '6803', 'Z80'], 'tax': F6, 'halt': ['Z80'], 'call': ['Z80'], 'ex': ['Z80'], 'p': F6 + ['Z80'], 'de': ['Z80']}
NOCPU = ['650', '65020', '6502C', '65 02', '65C2', '65C02,6502', '680', '68000', '6809', '6802', '6804', 'Z8', 'Z800', 'Z 80', 'Z80A', '8080', '8086', 'x', "'6502'", '"Z80"',
         '(6502)', '6502 6800', '_6502', '6502_', '0', '*', '65.02', '6502.', '-6800', '68OO', '?', '_', 'CPU', '\\1', '6510', '65CO2', '65C02 65C02', '#6502', '$6502', '6502+0']


def one(ctx, k):
    rng = ctx.check.rng('p', k)
    cpu = rng.choice(gen.CPUS)
    name = respell.cased(rng, cpu, rng.choice(['upper', 'lower', 'mix', 'keep']))
    files = {}
    out, want, bad, names = [], [], [], []
    q = rng.random() < .35           # with faults

    def put(l, data=b''):
        out.append(l)
        want.append(data)

    def fault(l):
        out.append(l)
        want.append(b'')
        bad.append(len(out))

    def second(name):
        """a CPU directive that is an error, in any kind of place"""
        z = rng.random()
        if z < .4:
            fault(' cpu ' + name)
        elif z < .6:
            for l in ('again%d macro' % len(out), ' cpu \\1', ' endm'):
                put(l)
            fault(' again%d %s' % (len(out) - 3, name))
        elif z < .8:
            files['again%d.inc' % len(out)] = ' cpu %s\n' % name
            put(' include again%d.inc' % len(out))
            bad.append(1)
        elif z < .9:
            put(' if 1')
            fault(' cpu ' + name)
            put(' endc')
        else:
            # deep in macros and files
            n = len(out)
            deep = rng.randrange(2, 6)
            for i in range(deep):
                last = i == deep - 1
                body = ' cpu ' + name if last else ' again%d.%d' % (n, i + 1)
                if last and rng.random() < .5:
                    files['deep%d.inc' % n] = body + '\n'
                    body = ' include deep%d.inc' % n
                for l in ('again%d.%d macro' % (n, i), body, ' endm'):
                    put(l)
            put(' again%d.0' % n)
            bad.append(1 if 'deep%d.inc' % n in files else len(out))

    def word(after):
        """a name which is none of this processor's"""
        w = rng.choice([x for x in WORDS if cpu not in WORDS[x]])
        if w in names:
            return
        names.append(w)
        if rng.random() < .5:
            put('%s = %d' % (w, rng.randrange(256)))
        else:
            v = rng.randrange(256)
            put('%s db %d' % (w, v), bytes([v]))
        if rng.random() < .5:
            put(' db lo(%s)-lo(%s)' % (w, w), b'\0')
    put('* = $%x' % rng.choice([0x10, 0x200, 0x8000]))
    for _ in range(rng.choice([0, 0, 1, 3])):
        z = rng.random()
        if z < .4:
            word(False)
        elif q and z < .6:
            l = rng.choice([l for l in TABLE if cpu in TABLE[l] and l.split()[0] not in ('dw', 'ddb', 'dl', 'db') and l.split()[0] not in names])
            fault(' ' + l)
        elif q and z < .75:
            second(rng.choice([n for n in NOCPU if n[0] != '\\' and ',' not in n]))
        elif z < .85:
            put(' if 0')
            put(' cpu %s' % rng.choice(gen.CPUS + ['8086']))
            put(' endc')
        else:
            put(' db 1', b'\1')
    fmt = None
    if rng.random() < .2:
        fmt = rng.choice('SH')
        put(' output %s' % {'S': 'scode', 'H': 'hex'}[fmt])
    place = rng.choice(['plain'] * 4 + ['include', 'macro', 'if', 'else', 'deep', 'argument'])
    ctx.seen('places', (place, cpu))
    line = ' ' * rng.randrange(1, 4) + respell.cased(rng, 'cpu', rng.choice(['upper', 'lower', 'mix'])) + rng.choice([' ', '  ', '\t']) + name + rng.choice(['', '', ' ; c', ';', '\t '])
    if place == 'include':
        files['c.inc'] = line + '\n'
        put(' include c.inc')
    elif place == 'macro':
        for l in ('setcpu macro', line, ' endm', ' setcpu'):
            put(l)
    elif place == 'argument':
        for l in ('setcpu macro', ' cpu \\1', ' endm', ' setcpu ' + name):
            put(l)
    elif place == 'if':
        for l in (' if 1', line, ' else', ' cpu %s' % rng.choice(gen.CPUS), ' endc'):
            put(l)
    elif place == 'else':
        for l in (' if 0', ' cpu %s' % rng.choice(gen.CPUS), ' else', line, ' endc'):
            put(l)
    elif place == 'deep':
        files['c.inc'] = 'setcpu macro\n if \\#=1\n cpu \\1\n endc\n endm\n setcpu %s\n' % name
        put(' include c.inc')
    else:
        put(line)
    if rng.random() < .2:
        f = rng.choice('SH')
        fmt = f
        put(' output %s' % {'S': 'scode', 'H': 'hex'}[f])
    for _ in range(rng.choice([1, 4, 12, 30])):
        z = rng.random()
        if z < .1:
            word(True)
            continue
        if q and z < .14:
            second(rng.choice(gen.CPUS + [cpu] * 3 + [n for n in NOCPU if n[0] != '\\' and ',' not in n]))
            continue
        if q and z < .16:
            fault(' cpu')
            continue
        l = rng.choice(list(TABLE))
        if l.split()[0] in names:
            continue
        if cpu in TABLE[l]:
            put(' ' + l, bytes.fromhex(TABLE[l][cpu]))
        elif q and not set(WORDS) & set(l.replace(',', ' ').split()[1:]):
            fault(' ' + l)
    files['t.asm'] = '\n'.join(out) + '\n'
    r = ctx.run(files, ('-l',))
    ctx.add('cases')
    ctx.add('lines', len(out))
    ctx.seen('nontrivial', (cpu, tuple(out)))
    if r.kind != 'exit' or r.code:
        ctx.violation('end', 'the run ended with %s' % r.describe(), r)
        return
    if r.o.errlines() != bad:
        ctx.violation('errors', 'CPU %s (%s): errors on lines %s instead of %s; %s' % (name, place, r.o.errlines(), bad, r.o.errors[:3]), r)
        return
    if bad:
        ctx.add('with faults')
        return
    try:
        ob = objfile.parse(r.obj or b'')
    except objfile.FormatError as e:
        ctx.violation('format', 'object file: %s' % e, r)
        return
    got = bytes(b for _, b in ob.stream())
    if got != b''.join(want):
        pos = 0
        for l, d in zip(out, want):
            if got[pos:pos + len(d)] != d:
                ctx.violation('bytes', 'CPU %s (%s): line %r gives %s instead of %s' % (name, place, l, got[pos:pos + len(d)].hex(), d.hex()), r)
                return
            pos += len(d)
        ctx.violation('bytes', 'CPU %s (%s): %d bytes instead of %d' % (name, place, len(got), pos), r)
        return
    f = fmt or ('H' if cpu == 'Z80' else 'S')
    if ob.fmt != f:
        ctx.violation('fmt', 'CPU %s (%s): format %s instead of %s' % (name, place, ob.fmt, f), r)
        return
    ctx.sample(files['t.asm'][:300])


def single(ctx, item):
    """every line under every processor, alone"""
    l, cpu = item
    r = ctx.run(' cpu %s\n* = $200\n %s\n db $5a\n' % (cpu, l), ('-l',))
    ctx.add('cases')
    ctx.seen('nontrivial', item)
    want = TABLE[l].get(cpu)
    if want is None:
        if r.o.errlines() != [3]:
            ctx.violation('single:' + cpu, '%s has no %s, but: %s' % (cpu, l, r.o.errors), r)
        return
    if r.o.errors or r.obj is None:
        ctx.violation('single:' + cpu, '%s is refused: %s' % (l, r.o.errors), r)
        return
    got = bytes(b for _, b in objfile.parse(r.obj).stream()).hex()
    if got != want + '5a':
        ctx.violation('single:' + cpu, '%s gives %s instead of %s' % (l, got, want + '5a'), r)


def before(ctx, item):
    """without a CPU directive, and above it, there are no instructions"""
    l, cpu = item
    if not TABLE[l].get(cpu) or l.split()[0] in ('dw', 'ddb', 'dl', 'db'):
        return
    for text, bad in (('* = $200\n %s\n' % l, [2]), ('* = $200\n %s\n cpu %s\n %s\n' % (l, cpu, l), [2]), ('* = $200\n cpu x%s\n %s\n' % (cpu, l), [2, 3]),
                      ('* = $200\n if 0\n cpu %s\n endc\n %s\n' % (cpu, l), [5]), ('* = $200\n cpu %s\n %s\n cpu %s\n %s\n' % (cpu, l, cpu, l), [4])):
        r = ctx.run(text, ('-l',))
        ctx.add('cases')
        ctx.seen('nontrivial', text)
        if r.o.errlines() != bad:
            ctx.violation('before', 'errors on lines %s instead of %s' % (r.o.errors, bad), r)
            return


def go():
    c = Check('C26')
    c.parallel(single, [(l, cpu) for l in TABLE for cpu in gen.CPUS])
    c.parallel(before, [(l, cpu) for l in TABLE for cpu in gen.CPUS])
    c.parallel(one, range(c.pick(20000, 200000)))
    c.finish('%d lines under all 7 processors, above and without the directive, and random programs with the directive in the main file, an include file, a macro or '
             'a branch, wrong names, a second directive and names that only other processors reserve; non-trivial: distinct programs' % len(TABLE), need=5000)


main(go)
