"""Hostile inputs: sources, include trees and command lines nobody would write on purpose.

All of them ask for little: no huge DS, no expansions that grow without bound.  So a run
that takes long, or prints much, does not do what it was asked for."""
import re
import gen
import respell
from macwork import Work
from lister import Builder, Sim, with_defs

MNEMO = {
    '6502': 'adc and asl bcc bcs beq bit bmi bne bpl brk bvc bvs clc cld cli clv cmp cpx cpy dec dex dey eor inc inx iny jmp jsr lda ldx ldy lsr nop '
            'ora pha php pla plp rol ror rti rts sbc sec sed sei sta stx sty tax tay tsx txa txs tya bra phx stz trb tsb'.split(),
    '6800': 'aba abx adca adcb adda addb addd anda andb asl asla bcc bcs beq bge bgt bhi bita bitb ble bls blt bmi bne bpl bra bsr bvc bvs cba clc '
            'cli clr clra cmpa cmpb com cpx daa dec des dex eora inc ins inx jmp jsr ldaa ldab ldd lds ldx lsr mul neg nop oraa psha pulb rol ror rti '
            'rts sba sbca sec sei sev staa stab std sts stx suba subd swi tab tap tba tpa tst tsx txs wai aim oim xgdx slp'.split(),
    'Z80': 'adc add and bit call ccf cp cpd cpdr cpi cpir cpl daa dec di djnz ei ex exx halt im in inc ind indr ini inir jp jr ld ldd lddr ldi ldir '
           'neg nop or otdr otir out outd outi pop push res ret reti retn rl rla rlc rlca rld rr rra rrc rrca rrd rst sbc scf set sla sra srl sub '
           'xor'.split(),
}
CPUS = ['6500', '6502', '65C02', '6800', '6801', '6803', '6301', '6303', 'Z80', 'z80']
REGS = 'a b c d e h l x y s i r af bc de hl ix iy sp pc (hl) (bc) (de) (sp) (ix) (iy+1) (ix-200) (c) nz z nc po pe p m'.split()
DIRS = ['asc', 'align', 'clist', 'code', 'cpu', 'db', 'dw', 'ddb', 'dl', 'dummy', 'else', 'endc', 'endm', 'equ', 'exitm', 'fail', 'if', 'ilist', 'include',
        'list', 'macro', 'mlist', 'nam', 'page', 'output', 'skip', 'frob', '=', '*']
OPERS = ['+', '-', '*', '/', '%', '&', '|', '^', '~', '<<', '>>', '<', '>', '<=', '>=', '=', '==', '!=', '<>', '.', '!', '?', '(', ')', '[', ']', '{', '}',
         ',', ',', '#', '@', "'", '"', '\\', ';', '$', '\\1', '\\9', '\\0', '\\@', '\\n', ':', '_', '`', 'ADDR', 'BIT', 'LO', 'HI', 'HI(', 'LO(', 'ADDR(', 'BIT(']
NUMS = ['0', '1', '2', '5', '7', '8', '9', '15', '16', '-1', '127', '128', '255', '256', '$ff', '0x100', '32767', '32768', '65535', '65536', '0ffh', '377q', '%101',
        '101b', '2147483647', '2147483648', '4294967295', '4294967296', '99999999999', '$fffffffff', '0b', '0x', '$', '%', "'a'", "'", "''", "'\\n'", "'ab'", '1000000h',
        '-2147483648', '08q', '9q', '0fg', '1e5', '1.5', '*', '*-1']


class Soup:
    def __init__(self, rng):
        self.r = rng
        self.fam = rng.choice(['6502', '6800', 'Z80'])
        self.words = MNEMO[self.fam]
        self.names = ['l%d' % i for i in range(4)] + ['.x', '.y', 'mac1', 'mac2', 'Mixed.name', 'r1', 'bitsym']
        self.sep = rng.choice([' ', ' ', '\t', '  ', ''])

    def atom(self):
        r = self.r
        q = r.random()
        if q < .35:
            return r.choice(NUMS)
        if q < .6:
            return r.choice(self.names)
        if q < .75:
            return r.choice(REGS)
        if q < .95:
            return r.choice(OPERS)
        if q < .97:
            return r.choice(self.words + DIRS)
        return ''.join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 5))).replace('\n', '?')

    def expr(self):
        r = self.r
        n = r.choice([0, 1, 1, 1, 2, 3, 3, 5, 8, 20])
        if r.random() < .5:
            # near to sense
            t = ''
            for i in range((n + 1) // 2):
                t += (r.choice(OPERS[:17]) if i else '') + r.choice(['', '', '-', '~', '(', 'HI(', '#', '<', 'LO ']) + r.choice(NUMS + self.names)
            return t + ')' * max(0, t.count('(') - r.randrange(2))
        return r.choice(['', '', ' ']).join(self.atom() for _ in range(n))

    def operand(self):
        return self.r.choice([',', ',', ', ', ' , ']).join(self.expr() for _ in range(self.r.choice([1, 1, 1, 2, 2, 3, 10])))

    def line(self):
        r = self.r
        q = r.random()
        lab = r.choice(['', '', '', r.choice(self.names), r.choice(self.names), self.atom()])
        if q < .3:
            op = r.choice(self.words)
            arg = r.choice(['', self.operand(), self.operand(), r.choice(REGS) + ',' + r.choice(REGS), '#' + self.expr(), self.expr() + ',' + r.choice('xyXY'),
                            '(' + self.expr() + ')', '(' + self.expr() + ',x)', '(' + self.expr() + '),y', '(i%s%s)' % (r.choice('xy'), self.expr())])
            if r.random() < .1:
                op += '.' + self.atom()
        elif q < .85:
            op = r.choice(DIRS)
            arg = self.operand()
            if op == 'asc':
                arg = r.choice(['"', "'", '']) + self.expr() + r.choice(['"', "'", '', '\\'])
            elif op == 'cpu':
                arg = r.choice(CPUS + [self.atom()])
            elif op == 'include':
                arg = r.choice(['a.inc', 'b.inc', 't.asm', 'nofile', '', '.', '"a.inc"', 'a.inc b.inc', './/a.inc', '\xe9'])
            elif op in ('list', 'mlist', 'clist', 'ilist'):
                arg = r.choice(['on', 'off', 'ON', 'off ', arg])
            elif op == 'output':
                arg = r.choice(['hex', 'scode', arg])
            elif op == 'align':
                arg = r.choice(['even', 'odd', arg])
            elif op == 'page':
                arg = r.choice(['', '%d,%d' % (r.choice([0, 10, 11, 30, 66, 200]), r.choice([39, 40, 61, 62, 63, 80, 132, 999, 1000])),
                                '%d,%d' % (r.randrange(-2, 210), r.randrange(30, 1010)), arg])
            elif op == 'skip':
                arg = r.choice([str(r.randrange(-3, 130)), arg])
            elif op == 'if' and r.random() < .5:
                arg = r.choice(['1', '0', 'l1', self.expr() + r.choice(['=', '<', '>', '<>', '>=', '<=', '!=', '==']) + self.expr()])
            elif op in ('=', '*'):
                return '%s%s=%s%s' % (lab if op == '=' else '*', self.sep, self.sep, self.operand())
            elif op == 'macro':
                lab = r.choice(['mac1', 'mac2', lab])
                arg = r.choice(['', arg])
            elif op in ('else', 'endc', 'endm', 'exitm', 'dummy', 'code', 'nam'):
                arg = r.choice(['', '', arg])
        elif q < .92:
            op, arg = r.choice(['mac1', 'mac2', 'mac1']), self.operand()
        elif q < .96:
            op, arg = 'ds', r.choice(['0', '1', '5', '300', '1,', '2,3', '-1', '5,5,5', '5,' + self.expr(), '0,' + self.expr(), 'l9', ''])
        else:
            return r.choice(['', ';', ' ', '\t', self.sep.join(self.atom() for _ in range(r.randrange(12))), ' "', " '", 'x' * r.randrange(20, 60)])
        t = lab + r.choice([' ', '\t', '  ']) + op + (r.choice([' ', '\t', self.sep]) if arg else '') + arg
        if r.random() < .1:
            t += r.choice([' ;', ';', ' ; "', " ;'x", ';;'])
        return t

    def text(self, n):
        r = self.r
        out = []
        if r.random() < .7:
            out.append(' cpu ' + r.choice({'6502': CPUS[:3], '6800': CPUS[3:8], 'Z80': CPUS[8:]}[self.fam]))
        if r.random() < .85:
            out.append(r.choice(['* = %s', ' * = %s', '*=%s']) % r.choice(['0', '$80', '$1000', '$fff8', '65535', '$7fffffff', '-1']))
        if r.random() < .5:
            out += ['l0 = %s' % r.choice(NUMS[:20]), 'l1 = $10', 'l2 = l1*3', 'bitsym = 5{3}']
        for _ in range(r.choice([0, 0, 1, 2])):
            name = r.choice(['mac1', 'mac2'])
            out.append(name + ' macro')
            calls = 0
            for _ in range(r.randrange(0, 6)):
                l = self.line()
                calls += 'mac' in l
                if calls <= 2:
                    out.append(l)
            out.append(r.choice([' endm', ' endm', ' endm', ' exitm', '']))
        depth = 0
        for _ in range(n):
            out.append(self.line())
            if r.random() < .1:
                out.append(' if ' + r.choice(['1', '0', '1', self.expr()]))
                depth += 1
            if depth and r.random() < .15:
                out.append(r.choice([' else', ' endc', ' endc']))
                depth -= out[-1] == ' endc'
        if r.random() < .8:
            out += [' endc'] * depth
        return out


def tame(t):
    """nothing that asks for much: DS only with small constants, few macro calls in bodies"""
    def ds(m):
        a = m.group(3).strip()
        return m.group(0) if re.fullmatch(r'\d{1,3}|\d{1,3}\s*,.*|-\d+|', a.split(';')[0].strip()) else m.group(1) + 'db' + m.group(2) + m.group(3)
    out = []
    body = calls = 0
    for l in t.split('\n'):
        l = re.sub(r'(?i)^(.*?)\bds\b(\s*)(.*)$', ds, l)
        # a line in a body that could spell DS through arguments
        if re.search(r'(?i)\bmacro\b', l):
            body, calls = 1, 0
        elif re.search(r'(?i)\bendm\b', l):
            body = 0
        elif body and re.search(r'(?i)mac\d|zqm|\\', l):
            calls += 1
            if calls > 3 and not re.search(r'\\', l):
                continue
        out.append(l)
    return '\n'.join(out)


def soup(rng):
    s = Soup(rng)
    files = {}
    for n in ('t.asm', 'a.inc', 'b.inc'):
        t = '\n'.join(s.text(rng.choice([1, 3, 10, 30, 60] if n == 't.asm' else [0, 1, 4, 10])))
        files[n] = tame(t) + rng.choice(['\n', '\n', ''])
    return files


def valid(rng):
    k = rng.randrange(4)
    if k == 0:
        lines, _ = Work(rng, rng.choice(['6502', '6801', 'Z80', None]), faults=rng.choice([0, .1])).build()
        return {'t.asm': '\n'.join(l if isinstance(l, str) else l.text() for l in lines) + '\n'}
    p = gen.program(rng, n=rng.choice([5, 20, 60]), cpu='?' if k != 1 else None, far=k == 1, faults=rng.choice([0, 0, .1, .4]), warns=rng.choice([0, .1, .4]), ds_max=300)
    if k == 3:
        b = Builder(rng, p, .15, ('if', 'mac', 'inc'), .1)
        sim = Sim(rng, p)
        return sim.main(with_defs(b.tree(p.lines, 0), sim, rng))
    return {'t.asm': p.text()}


def mutate(rng, files):
    """small damage to a sensible program"""
    res = {}
    pool = []
    for t in files.values():
        pool += t.split('\n')
    s = Soup(rng)
    for n, t in files.items():
        ls = t.split('\n')
        for _ in range(rng.choice([0, 1, 2, 5, 15])):
            if not ls:
                break
            i = rng.randrange(len(ls))
            l = ls[i]
            q = rng.randrange(12)
            j = rng.randrange(len(l) + 1)
            if q == 0:
                ls[i] = l[:j] + chr(rng.randrange(1, 256)).replace('\n', ' ') + l[j + rng.randrange(2):]
            elif q == 1:
                ls[i] = l[:j] + l[j + rng.randrange(1, 6):]
            elif q == 2:
                del ls[i]
            elif q == 3:
                ls.insert(i, rng.choice(pool))
            elif q == 4:
                ls[i] = l[:j] + rng.choice(pool)[rng.randrange(10):]
            elif q == 5:
                ls[i] = l[:j] + s.atom() + l[j:]
            elif q == 6:
                ls[i] = l[:j] + s.expr() + l[j:]
            elif q == 7:
                ls.insert(i, s.line())
            elif q == 8:
                k = rng.choice([10, 30, 31, 32, 100, 200, 249, 250, 256, 1000])
                ls[i] = l[:j] + rng.choice(['x', ' ', '(', '1', '"', "'", ',', '\\', '-', 'a,', '\t', ';', '+1', '\xff', '\\1', '{', '}', '.', '=', 'x=']) * k + l[j:]
            elif q == 9:
                ls[i] = l + l
            elif q == 10:
                w = re.findall(r'\S+', l)
                if w:
                    a = rng.choice(w)
                    ls[i] = l.replace(a, rng.choice([s.atom(), a + a, a.upper(), a[:-1]]), 1)
            else:
                k = rng.randrange(len(ls))
                ls[i], ls[k] = ls[k], ls[i]
        res[n] = tame('\n'.join(ls))
    return res


def binary(rng):
    """no text at all"""
    n = rng.choice([0, 1, 2, 10, 100, 1000, 5000])
    k = rng.randrange(5)
    if k == 0:
        t = bytes(rng.randrange(256) for _ in range(n))
    elif k == 1:
        t = bytes(rng.choice(b'\0\0\n\r ab\xff;"\'\\') for _ in range(n))
    elif k == 2:
        t = bytes([rng.randrange(256)]) * n
    elif k == 3:
        t = bytes(rng.choice(b' \t\n\r\x0b\x0c') for _ in range(n))
    else:
        t = bytearray(('\n'.join(Soup(rng).text(20))).encode('latin-1'))
        for _ in range(rng.randrange(1, 20)):
            if t:
                t[rng.randrange(len(t))] = rng.choice([0, 0, 10, 13, 26, 255, rng.randrange(256)])
        t = tame(bytes(t).decode('latin-1')).encode('latin-1')
    return {'t.asm': t, 'a.inc': t[:50]} if rng.random() < .2 else {'t.asm': t}


def lengths(rng):
    """one construct, as long as some buffer or a little longer"""
    L = max(0, rng.choice([1, 2, 8, 10, 15, 16, 20, 28, 29, 30, 31, 32, 33, 39, 40, 47, 63, 64, 65, 79, 80, 81, 99, 100, 119, 127, 128, 129, 199, 200, 201, 230, 239, 240, 241,
                           242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 299, 300, 301, 500, 511, 512, 999, 1000, 1001, 1024, 4096, 70000])
            + rng.choice([0, 0, -1, 1, -2, 2]))
    c = rng.choice('xA.1_ \t(')
    cpu = rng.choice(['', '', ' cpu 6502\n', ' cpu z80\n', ' cpu 6801\n'])
    forms = [
        '%s' % (c * L), '%s = 5' % (c * L), '%s: db 5' % ('a' * L), ' %s' % ('a' * L), ' db %s' % ('a' * L), ' db 5%s' % (' ' * L), '%s db 5' % (' ' * L),
        ' db %s5%s' % ('(' * L, ')' * L), ' db %s5' % ('-' * L), ' db %s5' % ('~' * L), ' db %s' % ('5+' * (L // 2)) + '5', ' db %s5' % ('5,' * (L // 2)),
        ' db ' + '0' * L + '5', ' db $' + 'F' * L, ' db %' + '1' * L, ' db ' + '7' * L + 'q', ' db ' + "'" * L, ' asc "%s"' % ('z' * L), ' asc "%s' % ('z' * L),
        ' asc "%s"' % ('\\n' * (L // 2)), ' asc "%s' % ('\\' * L), ' nam %s' % ('t' * L), ' fail %s' % ('f' * L), ' include %s' % ('i' * L), ' cpu %s' % ('c' * L),
        ' if %s' % ('1' * L), ' if 1%s' % ('=1' * (L // 2)), ' if %s\n endc' % ('(' * L), '%s macro\n db 5\n endm\n %s' % ('m' * L, 'm' * L),
        'm macro\n db \\1\n endm\n m %s' % ('5' * L), 'm macro\n asc "\\0"\n endm\n m %s' % ('5,' * (L // 2)), 'm macro\n asc "\\1\\1\\1"\n endm\n m %s' % ('y' * L),
        'm macro\n%s\n endm\n m 5' % ('\\1' * (L // 2)), 'm macro\n db %s\n endm\n m' % ('\\9' * (L // 2)), 'm macro\n%s\n endm\n m' % (' ' * L + 'db 5'),
        'm macro\n asc "%s"\n endm\n m' % ('q' * L), ' db 5 ;%s' % (c * L), ';%s' % (c * L), '%s' % (';' * L), ' lda %s' % ('(' * L), ' ld a,%s' % ('(' * L),
        ' ld (ix%s),5' % ('+1' * (L // 2)), ' lda %s,x' % ('a' * L), ' lda.%s 5' % ('b' * L), ' page %s,80' % ('6' * L), ' page %s66,80' % ('0' * L), ' skip %s' % ('1' * L),
        ' output %s' % ('h' * L), ' list %s' % ('o' * L), ' align %s' % ('e' * L), ' ds %s,%s' % ('0' * L + '5', '0' * L), ' dw %s' % ('HI(' * (L // 3)),
        ' db 5%s' % ('{3}' * (L // 3)), ' db BIT(%s)' % ('5{' * (L // 2)), ' db %s' % ('a.' * (L // 2)), ' db %s' % ('.' * L), '.%s = 3\n db .%s' % ('n' * L, 'n' * L),
        '%s' % ('l ' * (L // 2)), '%s' % ('=' * L), ' db 5%s' % ('\t' * L + ';x'), '\\' * L, '"' * L, "l%s = 5\n db l%s" % ('0' * L, '0' * L),
        '%s equ %s' % ('e' * L, 'e' * L), 'm macro %s\n endm' % ('p' * L), ' db %s' % ('*' * L), ' %s %s' % ('x' * (L // 2), 'y' * (L // 2)),
        ' db 1%s' % ('<<1' * (L // 3)), ' db %s' % ('?' * L), ' db %s' % ('#' * L), '* = %s' % ('0' * L), ' db [%s]' % ('[' * L), ' db "%s"' % ('d' * L),
    ]
    t = cpu + rng.choice(['* = 0\n', '* = 0\n', '']) + rng.choice([' page %d,%d\n' % (rng.choice([0, 10, 66]), rng.choice([39, 40, 80, 999, 1000])), '', '', ' mlist on\n'])
    for _ in range(rng.choice([1, 1, 2, 4])):
        t += rng.choice(forms) + '\n'
    if rng.random() < .2:
        t = t[:-1]
    return {'t.asm': t}


def structure(rng):
    """blocks that never end, never began, or lie much too deep"""
    n = rng.choice([0, 1, 2, 5, 8, 9, 10, 11, 20, 100, 900, 998, 999, 1000, 1001, 1002, 3000])
    few = min(n, 12)
    k = rng.randrange(16)
    files = {}
    if k == 0:
        t = ' if %d\n' % rng.randrange(2) * n + ' db 5\n' + ' endc\n' * max(0, n + rng.choice([-1, 0, 0, 1]))
    elif k == 1:
        t = ' if 0\n' + ' if 1\n' * n + rng.choice([' else\n', '']) + ' db 5\n' + ' endc\n' * (n + rng.choice([-1, 0, 1, 2]))
    elif k == 2:
        t = 'm macro\n' * n + ' db 5\n' + ' endm\n' * n + ' m\n'
    elif k == 3:
        t = 'm macro\n db 5\n m\n endm\n m\n'
    elif k == 4:
        t = ''.join('m%d macro\n db %d\n%s endm\n' % (i, i, ' m%d\n' % (i + 1) if i < few - 1 else '') for i in range(few)) + ' m0\n'
    elif k == 5:
        t = ' include t.asm\n'
    elif k == 6:
        for i in range(few):
            files['f%d' % i] = ' db %d\n include f%d\n db %d' % (i, i + 1, i) + rng.choice(['\n', ''])
        files['f%d' % few] = ' db 99\n'
        t = ' ilist %s\n include f0\n' % rng.choice(['on', 'off'])
    elif k == 7:
        files['a'] = ' include b\n'
        files['b'] = ' include a\n'
        t = ' include a\n'
    elif k == 8:
        t = rng.choice(['m macro\n db 5\n', 'm macro\n', ' if 0\n', ' if 1\n', ' if 0\n else\n', ' else\n', ' endc\n', ' endm\n', ' exitm\n', 'm macro\n if 1\n endm\n m\n',
                        ' if 1\nm macro\n endc\n endm\n m\n', 'm macro\n endc\n endm\n if 1\n m\n', 'm macro\n else\n endm\n if 1\n m\n endc\n', 'm macro\n if 1\n exitm\n endm\n m\n',
                        ' if 0\nm macro\n endm\n endc\n m\n', ' if 1\n else\n else\n endc\n', ' if 0\n else\n else\n endc\n', ' if 1\n include a\n endc\n', ' if\n endc\n',
                        'm macro\n include a\n endm\n m\n', 'm macro\n\\1\n endm\n m endm\n', 'm macro\nn macro\n endm\n endm\n m\n n\n'])
        files['a'] = rng.choice([' endc\n', ' else\n', ' endm\n', ' if 1\n', 'm macro\n', '', ' exitm\n', ' if 0\n'])
        if rng.random() < .5:
            t += ' db 1\n' + t
        if rng.random() < .3:
            t = t[:-1]
    elif k == 9:
        t = 'm macro\n' + ' if \\1\n' * min(n, 50) + ' db 1\n' + ' endc\n' * min(n, 50) + ' endm\n' + ' m 1\n m 0\n' * 5
    elif k == 10:
        t = ''.join('n%d = n%d+1\n' % (i, i + 1) for i in range(min(n, 1000))) + 'n%d = 1\n' % min(n, 1000) + ' db n0\n'
    elif k == 11:
        names = ['s%d' % i for i in range(min(n, 1000))]
        q = rng.randrange(3)
        names = names if q == 0 else names[::-1] if q == 1 else rng.sample(names, len(names))
        t = ''.join('%s = %d\n' % (s, i) for i, s in enumerate(names))
    elif k == 12:
        t = ' skip 100\n page\n' * min(n, 100) + ' page %d,%d\n' % (rng.choice([0, 10, 66]), rng.choice([39, 80, 1000]))
    elif k == 13:
        t = 'a = a\n b = c\nc = b\n db a,b,c\nd = d+1\ne ds e\n* = f\nf db 1\n'
    elif k == 14:
        t = 'm macro\n m \\0,x\n endm\n m 1\n' if rng.random() < .5 else 'm macro\n if \\1\n m \\1-1\n endc\n endm\n m %d\n' % few
    else:
        t = '.l db 5\n' * n + 'x = 1\n.l db .l\n'
    return {'t.asm': t, **files}


def extreme(rng):
    """values and addresses at the ends of what 32 bits hold"""
    r = rng
    out = []
    if r.random() < .8:
        out.append('* = ' + r.choice(['0', '$80', '$fff8', '-1', '$7fffffff']))
    V = ['0', '1', '-1', '$7f', '$80', '$ff', '$100', '$7fff', '$8000', '$ffff', '$10000', '$7fffffff', '$80000000', '$ffffffff', '$fffffffe', '0x80000001', '-128', '-129',
         '-32769', '65530', '*', 'l0', 'l1', 'undef', 'BIT(5{3})']
    if r.random() < .5:
        V += ['5{3}', 'ADDR(5{3})', 'a', 'x', 'hl', 'nop', 'db', 'mac', "'\\t'", "'\\\\'", "'\\''", "'\\x'", "'ab'", "'abcd'", "'abcde'", "'\\0\\r\\n'", '9q', '12b', '0x', '$', '-l0', '101b', '%2']
        out.append('mac macro\n endm')
    fam = r.choice(['6502', '6800', 'Z80', None])
    if fam:
        out.append(' cpu ' + r.choice({'6502': CPUS[:3], '6800': CPUS[3:8], 'Z80': CPUS[8:]}[fam]))
    if r.random() < .3:
        out.append(' output ' + r.choice(['hex', 'scode']))
    for i in range(r.randrange(1, 25)):
        def e():
            return r.choice(['%s', '%s', '%s+%s', '%s-%s', '%s*%s', '%s/%s', '%s%%%s', '%s<<%s', '%s>>%s', '-(%s)', '~%s', 'HI(%s)', 'LO(%s)', '%s{%s}', '(%s&%s)|%s']
                            )
        def ex():
            t = e()
            return t % tuple(r.choice(V) for _ in range(t.replace('%%', '').count('%s')))
        q = r.random()
        if q < .2:
            out.append('* = ' + ex())
        elif q < .4:
            out.append('l%d = %s' % (r.randrange(3), ex()))
        elif q < .6:
            out.append(' %s %s' % (r.choice(['db', 'dw', 'ddb', 'dl']), ','.join(ex() for _ in range(r.randrange(1, 5)))))
        elif q < .9 and fam:
            out.append(' %s %s' % (r.choice(MNEMO[fam]), r.choice(['', '#', '(', 'a,', 'a,(', 'hl,', 'b,', '(ix+', '(hl),', '1,'] if fam == 'Z80' else ['', '', '#', '(', '<', '>']) + ex() +
                                   r.choice(['', '', ')', ',x', ',y', '),y', ',x)', '),a', ',a', ',b'])))
        elif q < .95:
            out.append(' ds %d,%s' % (r.choice([0, 1, 16, 300]), ex()))
        else:
            out.append(r.choice([' align even', ' align odd', ' dummy', ' code', 'x%d db 1' % i, 'x%d' % i, ' skip ' + ex(), ' page %s,%s' % (ex(), ex()), ' if %s\n db 1\n endc' % ex()]))
    return {'t.asm': '\n'.join(out) + '\n'}


def instructions(rng):
    """every mnemonic with every shape of operand, sensible or not"""
    r = rng
    fam = r.choice(['6502', '6800', 'Z80', 'Z80'])
    out = [' cpu ' + r.choice({'6502': CPUS[:3], '6800': CPUS[3:8], 'Z80': CPUS[8:]}[fam]), '* = $%x' % r.choice([0, 0x80, 0x1000, 0xfff0]), 'here nop', 'zp = $12', 'big = $1234', 'bits = 5{3}']
    V = ['0', '1', '5', '7', '8', 'zp', 'big', 'here', 'later', '*', '*+2', '255', '256', '-1', '-129', '$ffff', '$10000', 'undef', 'bits', '$10{3}', '(5){9}', "'a'", '1+1', 'HI(big)', '<big', '>big']
    for _ in range(r.choice([5, 30, 100])):
        v = lambda: r.choice(V)
        if fam == 'Z80':
            def one():
                q = r.random()
                return (r.choice(REGS) if q < .5 else v() if q < .65 else '(%s)' % v() if q < .75 else '(%s%s%s)' % (r.choice(['ix', 'iy', 'IX', 'hl', 'sp', 'bc']), r.choice('+-'), v())
                        if q < .9 else '(%s)' % r.choice(REGS))
            a = r.choice(['', one(), one() + ',' + one(), one() + ',' + one(), v() + ',' + one(), ','.join([one(), one(), one()])])
        else:
            a = r.choice(['', '', v(), v(), '#' + v(), '(' + v() + ')', '(' + v() + ',x)', '(' + v() + '),y', v() + ',x', v() + ',y', ',x', 'x', 'a', 'b', '#' + v() + ',' + v(),
                          '#' + v() + ',' + v() + ',x', v() + ',' + v(), '<' + v(), '>' + v() + ',x', '(' + v() + ',y)', '[' + v() + ']', 'a,b', v() + ',x,y'])
        out.append(r.choice(['', '', 'q%d' % len(out)]) + r.choice([' ', '\t']) + r.choice(MNEMO[fam]) + ' ' + a)
    out += ['later nop']
    return {'t.asm': '\n'.join(out) + '\n'}


KINDS = {
    'instructions': instructions,
    'soup': soup, 'valid': valid, 'mutated': lambda r: mutate(r, valid(r)), 'mutated soup': lambda r: mutate(r, soup(r)), 'binary': binary, 'lengths': lengths,
    'structure': structure, 'extreme': extreme,
    'respelled': lambda r: {n: respell.text(r, t) for n, t in valid(r).items()},
}


def options(rng):
    return rng.choice([(), (), (), ('-l',), ('-s',), ('-x',), ('-lx',), ('-l', '-s', '-x'), ('-sx',)])


def case(rng, kind=None):
    kind = kind or rng.choice(list(KINDS))
    files = {n: t if isinstance(t, (bytes, bytearray)) else t.encode('latin-1', 'replace') for n, t in KINDS[kind](rng).items()}
    return kind, files, options(rng), rng.random() < .7


def arguments(rng):
    """command lines: (arguments, files).  Names stay in the directory."""
    files = {'t.asm': rng.choice([' db 5\n', ' frob\n', '', ' include nofile\n']), 'u.asm': ' db 6\n', 'd/x': ''}
    args = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 20, 50])):
        args.append(rng.choice(['t.asm', 't.asm', 'u.asm', 'nofile', 'd', '.', '', '-', '--', '-l', '-s', '-x', '-o', '-o', 'out', '-lsx', '-xo', '-ol', '-oo', '-L', '-?', '-o=out',
                                '-' + 'l' * 300, 'n' * 200, 'n' * 300, '-lq', './t.asm', 'd/../t.asm', 'd/', '-\xff', '%s%n', '-%n', '-' + 's' * 60000, 'm' * 60000]))
    return args, files
