#!/usr/bin/env python3
"""C21: layout, letter case and comments carry no meaning.

Programs are written again with other letter case, blanks, comments and empty lines.
Oracles: the bytes and symbols that lib/gen.py knows for them, and the run of the
original spelling (object file, symbols, number of errors, warnings).
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import fold  # noqa: E402
import foldcheck  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import macwork  # noqa: E402
import objfile  # noqa: E402
import respell  # noqa: E402


def flat(ctx, k):
    rng = ctx.check.rng('f', k)
    p = gen.program(rng, n=rng.choice([5, 20, 60]), far=k % 6 == 0, cpu=None if k % 6 == 0 else '?', low=rng.random() < .3,
                    warns=rng.choice([0, .05]), faults=rng.choice([0, 0, 0, .1]), long_asc=rng.choice([20, 90]), undef=False)
    if rng.random() < .5:
        # blanks wherever the generator knows that they may be put
        for x in p.lines:
            while gen.OPT in x.arg:
                x.arg = x.arg.replace(gen.OPT, rng.choice(['', '', ' ', '\t', '  ']), 1)
    src = p.text()
    t = respell.text(rng, src)
    r = ctx.run(t, ('-l', '-x'))
    ctx.add('cases')
    ctx.seen('nontrivial', t)
    ctx.add('lines', len(p.lines))
    if p.errors():
        if r.kind != 'exit' or r.code or r.o.nerr != len(p.errors()) or len(r.o.errors) != len(p.errors()):
            ctx.violation('flat:errors', '%s errors, %d faulty lines (%s)' % (r.o.nerr, len(p.errors()), r.o.errors[:4]), r,
                          extra='original spelling:\n' + src)
        return
    if not judge.code(ctx, r, p, 'flat'):
        return
    if r.o.nwarn != len(p.warnings()):
        ctx.violation('flat:warnings', '%s warnings, %d lines deserve one' % (r.o.nwarn, len(p.warnings())), r)
        return
    judge.symbols(ctx, r, p, 'flat')
    ctx.sample(t[:300])


def folded(ctx, k):
    rng = ctx.check.rng('m', k)
    if rng.random() < .4:
        w = macwork.Work(rng, rng.choice(['6502', '6801', 'Z80']), faults=rng.choice([0, 0, .1]))
        files = {'t.asm': '\n'.join(w.build()[0]) + '\n'}
        blank, drop = 'keep', True
    else:
        p = gen.program(rng, n=rng.choice([10, 40]), faults=rng.choice([0, 0, .1]), undef=False, warns=.02)
        f = fold.Fold(p, rng, kinds=rng.choice([('if',), ('mac',), ('inc',), ('if', 'mac', 'inc')]), density=.2, generic=.1)
        files = f.build()
        drop = False
    new = {}
    for n, t in files.items():
        if drop:
            # the operands of a macro call are text: \* keeps its blanks
            new[n] = macro_safe(rng, t)
        else:
            new[n] = respell.text(rng, t, limit=90)
    a = ctx.run(files, ('-l', '-x'))
    b = ctx.run(new, ('-l', '-x'))
    ctx.add('cases')
    ctx.seen('nontrivial', tuple(sorted(new.items())))
    if foldcheck.same(ctx, b, a, 'folded', 'new spelling against the original one'):
        if a.o.ok() and a.o.nwarn != b.o.nwarn:
            ctx.violation('folded:warnings', '%s warnings against %s' % (b.o.nwarn, a.o.nwarn), b)
        ctx.add('successful', a.o.ok())


def macro_safe(rng, t):
    """letter case and comments only where operands may be quoted as text"""
    out = []
    case = rng.choice(['upper', 'lower', 'mix'])
    for l in t.split('\n'):
        if rng.random() < .1:
            out.append(rng.choice(['', '; c', ' ; "', '\t']))
        m = respell.TOKEN.match(l)
        if '"' in l or "'" in l or '\\' in l or ';' in l:
            out.append(l)
            continue
        w = l.split()
        if len(w) == 1 or (len(w) == 2 and l[:1] in ' \t' and w[0].lower() in ('if', 'db', 'dw', 'dl', 'ds', 'code', 'endc', 'else', 'endm')):
            l = respell.cased(rng, l, case) + rng.choice(['', '  ', '\t', ' ; c "', ';'])
        elif m and l.strip():
            l = l + rng.choice(['', ' ', '\t', ' ; it\'s', ' ;'])
        out.append(l)
    return '\n'.join(out)


# for each processor: lines as pieces; '~' is an optional blank, '_' one that must be there
GRID = {
    '6502': [('~db_1~,~2~+~3~,~$Fa~<<~1~', b'\1\5\xf4'), ('~lda_#~5~', b'\xa9\5'), ('~lda_(~5~,~x~)~', b'\xa1\5'),
             ('~lda_(~5~)~,~y~', b'\xb1\5'), ('~lda_5~,~x~', b'\xb5\5'), ('~sta_$1234~,~y~', b'\x99\x34\x12'), ('~jmp_(~$1234~)~', b'\x6c\x34\x12'),
             ('~asl_a~', b'\x0a'), ('~asl~', b'\x0a'), ('~rts~', b'\x60'), ('~asc_"a;b , c"~', b'a;b , c'), ('~db_\';\'~,~5~', b';\5'), ("~db_5~*~3~-~6~/~2~", b'\x0c'),
             ('~dw_1~|~2~&~6~^~$F0~', b'\xf2\0'), ('~dw_~-~5~+~~~7~', None), ('~ds_3~,~7~', b'\7\7\7'), ('~align_odd~', None)],
    '6801': [('~ldaa_#~5~', b'\x86\5'), ('~ldaa_5~,~x~', b'\xa6\5'), ('~staa_$1234~', b'\xb7\x12\x34'), ('~std_$12~', b'\xdd\x12'),
             ('~jmp_5~,~x~', b'\x6e\5'), ('~jmp_0~,~x~', b'\x6e\0'), ('~asla~', b'\x48'), ('~ldx_#~$1234~', b'\xce\x12\x34'), ('~ddb_1~,~2~', b'\1\0\2\0'),
             ('~dw_hi(~$1234~)~+~lo(~5~)~', b'\0\x17'), ('~asc_\'";"\'~', b'";"')],
    'Z80': [('~ld_a~,~5~', b'\x3e\5'), ('~ld_a~,~(~hl~)~', b'\x7e'), ('~ld_(~ix~+~5~)~,~b~', b'\xdd\x70\5'), ('~ld_c~,~(~iy~-~2~)~', b'\xfd\x4e\xfe'),
            ('~ld_hl~,~(~$1234~)~', b'\x2a\x34\x12'), ('~in_a~,~(~5~)~', b'\xdb\5'), ('~in_b~,~(~c~)~', b'\xed\x40'), ('~out_(~c~)~,~d~', b'\xed\x51'),
            ('~out_(~7~)~,~a~', b'\xd3\7'), ('~jr_nz~,~*~', b'\x20\xfe'), ('~jp_nc~,~$1234~', b'\xd2\x34\x12'), ('~ex_(~sp~)~,~hl~', b'\xe3'), ('~ex_af~,~af\'~', b'\x08'),
            ('~set_3~,~(~ix~+~4~)~', b'\xdd\xcb\4\xde'), ('~bit_7~,~a~', b'\xcb\x7f'), ('~push_ix~', b'\xdd\xe5'), ('~jp_(~hl~)~', b'\xe9'), ('~jp_(~iy~)~', b'\xfd\xe9'),
            ('~add_hl~,~bc~', b'\x09'), ('~adc_a~,~b~', b'\x88'), ('~sub_b~', b'\x90'), ('~rst_$38~', b'\xff'), ('~im_1~', b'\xed\x56'), ('~call_z~,~5~', b'\xcc\5\0'),
            ('~ret_po~', b'\xe0'), ('~ldir~', b'\xed\xb0')],
}


def spell(pat, choose):
    """choose(i, kind) gives the blanks of place i"""
    out = []
    i = 0
    k = 0
    while k < len(pat):
        c = pat[k]
        if c == '~' and pat[k:k + 3] == '~~~':
            out.append(choose(i, '~') + '~' + choose(i + 1, '~'))
            i += 2
            k += 3
            continue
        if c in '~_':
            out.append(choose(i, c))
            i += 1
        else:
            out.append(c)
        k += 1
    return ''.join(out), i


def grid(ctx, item):
    """every optional place of an instruction filled in every way, one at a time and together"""
    cpu, idx = item
    pat, want = GRID[cpu][idx]
    n = spell(pat, lambda i, c: '' if c == '~' else ' ')[1]
    fills = [' ', '\t', '  ', '\t\t', ' \t', ' ' * 12]
    vs = []
    for f in fills + ['']:
        vs.append(spell(pat, lambda i, c: f or ('' if c == '~' else ' '))[0])
        for k in range(n):
            vs.append(spell(pat, lambda i, c: f or ' ' if i == k else ('' if c == '~' else ' '))[0])
    rng = ctx.check.rng('g', item)
    for _ in range(40):
        vs.append(spell(pat, lambda i, c: rng.choice(fills) if c == '_' else rng.choice(fills + ['', '']))[0])
    vs = sorted(v for v in set(vs) if len(v.expandtabs(8)) < 190)
    lines = []
    for v in vs:
        q = rng.choice(['keep', 'upper', 'lower', 'mix'])
        parts = respell.TOKEN.finditer(v)
        v = ''.join(m.group() if m.lastgroup == 'quote' else respell.cased(rng, m.group(), q) for m in parts)
        if rng.random() < .3:
            v += ';' + rng.choice(respell.COMMENTS)
        if rng.random() < .3:
            v = 'Lab%d' % len(lines) + rng.choice(['', '_x', '.y']) + rng.choice(fills[:5]) + v.lstrip(' \t')
        lines.append(v)
    if want is None:
        return
    text = ' cpu %s\n output scode\n* = $200\n' % cpu + '\n'.join(lines) + '\n'
    r = ctx.run(text, ('-l', '-s'))
    ctx.add('cases', len(lines))
    for v in lines:
        ctx.seen('nontrivial', v)
    ob = judge.run_ok(ctx, r, 'grid')
    if ob is None:
        return
    got = bytes(b for _, b in ob.stream())
    if cpu == 'Z80' and got == want * len(lines):
        return
    if got != want * len(lines):
        i = next((i for i in range(len(lines)) if got[i * len(want):(i + 1) * len(want)] != want), None)
        ctx.violation('grid', 'line %r gives %s instead of %s' % (lines[i] if i is not None else '?',
                                                                got[i * len(want):(i + 1) * len(want)].hex() if i is not None else '', want.hex()), r)


IFS = [('1', '=', '1', 1), ('1', '<>', '1', 0), ('1', '<', '2', 1), ('2', '>', '3', 0), ('3', '<=', '3', 1), ('3', '>=', '4', 0), ('1', '!=', '2', 1), ('5', '', '', 1), ('0', '', '', 0),
       ('5', '==', '5', 1), ('$aB', '=', '$Ab', 1), ("';'", '=', '59', 1), ('k', '=', '7', 1), ('K', '>', '6', 1), ("'='", '=', '61', 1)]


def ifs(ctx, k):
    """the comparisons of IF, and the words of the directives"""
    rng = ctx.check.rng('if', k)
    lines, want = ['* = $10', rng.choice(['k=7', 'k =7', 'k= 7', 'K\t=\t7 ', 'k\tequ\t7', ' k = 7', '\tk EQU 7', 'k Equ 7;x'])], []

    def b(least=0):
        return respell.blanks(rng, least, 'mix')

    def w(t):
        return respell.cased(rng, t, rng.choice(['upper', 'lower', 'mix']))

    def e():
        return b() + (';' + rng.choice(respell.COMMENTS) if rng.random() < .3 else '')
    for i in range(rng.randrange(1, 12)):
        x, op, y, v = rng.choice(IFS)
        lines.append(b() + w('if') + b(1) + x + b() + op + b() + y + e())
        lines.append(' db %d' % (2 * i))
        lines.append(b() + w('else') + e())
        lines.append(' db %d' % (2 * i + 1))
        lines.append(b() + w('endc') + e())
        want.append(2 * i if v else 2 * i + 1)
        q = rng.randrange(6)
        if q == 0:
            lines.append(b() + w('list') + b(1) + w(rng.choice(['on', 'off'])) + e())
        elif q == 1:
            lines.append(b() + w('code') + e())
        elif q == 2:
            lines += ['m%d' % i + b(1) + w('macro') + e(), b() + w('db') + b(1) + '\\1' + b() + ',' + b() + '\\2' + e(), b() + w('endm') + e(),
                      b() + w('m%d' % i) + b(1) + '1' + b() + ',' + b() + '2' + e()]
            want += [1, 2]
        elif q == 3:
            lines.append(b() + w('asc') + b(1) + rng.choice(['"a;"', "'a;'"]) + e())
            want += [0x61, 0x3b]
        elif q == 4:
            lines += [b() + '*' + b() + '=' + b() + '*' + b() + '+' + b() + '1' + e(), b() + w('output') + b(1) + w('scode') + e()] if not i else ['']
    text = '\n'.join(lines) + '\n'
    r = ctx.run(text, ('-l', '-s'))
    ctx.add('cases')
    ctx.seen('nontrivial', text)
    ob = judge.run_ok(ctx, r, 'if')
    if ob is None:
        return
    got = [x for _, x in ob.stream()]
    if got != want:
        ctx.violation('if', 'bytes %s instead of %s' % (got, want), r)


def go():
    c = Check('C21')
    q = c.pick(3, 10)
    c.parallel(flat, range(6000 * q))
    c.parallel(folded, range(3000 * q))
    c.parallel(grid, [(cpu, i) for cpu in GRID for i in range(len(GRID[cpu]))], chunk=1)
    c.parallel(ifs, range(3000 * q))
    c.finish('a program in another layout, counted by its text; lines of the grid count singly', need=5000)


main(go)
