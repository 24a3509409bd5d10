"""The Z80 instruction set (documented instructions), from Zilog's tables.

Operands are (kind, value) pairs:
  ('r', 'A') 8 bit register   ('rr', 'BC') 16 bit register incl. SP AF IX IY
  ('x', 'I'/'R'/'F'/"AF'")    ('m', 'HL'/'BC'/'DE'/'SP'/'C'/'IX'/'IY') a register in ( )
  ('xd', ('IX', d)) indexed   ('n', v) number   ('mn', v) number in ( )
  ('c', 'NZ') a condition; C is ('r', 'C')
encode() returns the bytes or None: not a Z80 instruction.
"""
R8 = {'B': 0, 'C': 1, 'D': 2, 'E': 3, 'H': 4, 'L': 5, 'A': 7}
R16 = {'BC': 0, 'DE': 1, 'HL': 2, 'SP': 3}
Q16 = {'BC': 0, 'DE': 1, 'HL': 2, 'AF': 3}
CC = {'NZ': 0, 'Z': 1, 'NC': 2, 'C': 3, 'PO': 4, 'PE': 5, 'P': 6, 'M': 7}
PRE = {'IX': 0xdd, 'IY': 0xfd}
SIMPLE = {}
for _l in '''CCF:3F CPD:EDA9 CPDR:EDB9 CPI:EDA1 CPIR:EDB1 CPL:2F DAA:27 EXX:D9 HALT:76 IND:EDAA INDR:EDBA
INI:EDA2 INIR:EDB2 DI:F3 EI:FB LDD:EDA8 LDDR:EDB8 LDI:EDA0 LDIR:EDB0 NEG:ED44 NOP:00 OTDR:EDBB OTIR:EDB3
OUTD:EDAB OUTI:EDA3 RETI:ED4D RETN:ED45 RLA:17 RLCA:07 RLD:ED6F RRA:1F RRCA:0F RRD:ED67 SCF:37'''.split():
    _m, _c = _l.split(':')
    SIMPLE[_m] = bytes.fromhex(_c)
ALU = {'ADD': 0x80, 'ADC': 0x88, 'SUB': 0x90, 'SBC': 0x98, 'AND': 0xa0, 'XOR': 0xa8, 'OR': 0xb0, 'CP': 0xb8}
ROT = {'RLC': 0x00, 'RRC': 0x08, 'RL': 0x10, 'RR': 0x18, 'SLA': 0x20, 'SRA': 0x28, 'SRL': 0x38}
BITS = {'BIT': 0x40, 'RES': 0x80, 'SET': 0xc0}
MNEMONICS = sorted(set(SIMPLE) | set(ALU) | set(ROT) | set(BITS) |
                   {'LD', 'INC', 'DEC', 'PUSH', 'POP', 'EX', 'IN', 'OUT', 'JP', 'CALL', 'RET', 'RST', 'IM'})
REL = {'JR', 'DJNZ'}


def w(v):
    return bytes([v & 0xff, (v >> 8) & 0xff])


def b(v):
    return bytes([v & 0xff])


def src8(op):
    """(prefix, register code, displacement bytes) of an 8 bit register or memory operand"""
    k, v = op
    if k == 'r':
        return b'', R8[v], b''
    if k == 'm' and v == 'HL':
        return b'', 6, b''
    if k == 'xd':
        return bytes([PRE[v[0]]]), 6, b(v[1])
    if k == 'm' and v in PRE:
        return bytes([PRE[v]]), 6, b'\0'
    return None


def cond(op):
    k, v = op
    if k == 'c':
        return CC[v]
    if op == ('r', 'C'):
        return 3
    return None


def reg16(op, tab, hl=None):
    """(prefix, code) of a 16 bit register; IX and IY stand in for HL"""
    k, v = op
    if k != 'rr':
        return None
    if v in tab:
        return b'', tab[v]
    if v in PRE:
        return bytes([PRE[v]]), 2
    return None


def encode(mn, ops):
    n = len(ops)
    if mn in SIMPLE:
        return SIMPLE[mn] if n == 0 else None
    if mn in ALU:
        base = ALU[mn]
        if mn in ('ADD', 'ADC', 'SBC'):
            if n != 2:
                return None
            if ops[0] != ('r', 'A'):
                d = ops[0]
                if d[0] != 'rr' or d[1] not in ('HL', 'IX', 'IY'):
                    return None
                if d[1] != 'HL' and mn != 'ADD':
                    return None
                s = ops[1]
                if s[0] != 'rr' or s[1] == 'AF':
                    return None
                if s[1] in ('HL', 'IX', 'IY'):
                    if s[1] != d[1]:
                        return None
                    c = 2
                else:
                    c = R16[s[1]]
                pre = b'' if d[1] == 'HL' else bytes([PRE[d[1]]])
                return pre + {'ADD': bytes([0x09 + c * 16]), 'ADC': bytes([0xed, 0x4a + c * 16]),
                              'SBC': bytes([0xed, 0x42 + c * 16])}[mn]
            s = ops[1]
        else:
            if n != 1:
                return None
            s = ops[0]
        if s[0] == 'n':
            return bytes([base + 0x46]) + b(s[1])
        x = src8(s)
        return x and x[0] + bytes([base + x[1]]) + x[2]
    if mn in ROT:
        x = src8(ops[0]) if n == 1 else None
        return x and x[0] + b'\xcb' + x[2] + bytes([ROT[mn] + x[1]])
    if mn in BITS:
        if n != 2 or ops[0][0] != 'n' or not 0 <= ops[0][1] <= 7:
            return None
        x = src8(ops[1])
        return x and x[0] + b'\xcb' + x[2] + bytes([BITS[mn] + 8 * ops[0][1] + x[1]])
    if mn in ('INC', 'DEC'):
        if n != 1:
            return None
        x = src8(ops[0])
        if x:
            return x[0] + bytes([(4 if mn == 'INC' else 5) + 8 * x[1]]) + x[2]
        x = reg16(ops[0], R16)
        return x and x[0] + bytes([(3 if mn == 'INC' else 0x0b) + 16 * x[1]])
    if mn in ('PUSH', 'POP'):
        x = reg16(ops[0], Q16) if n == 1 else None
        return x and x[0] + bytes([(0xc5 if mn == 'PUSH' else 0xc1) + 16 * x[1]])
    if mn == 'EX':
        if n != 2:
            return None
        if ops == [('rr', 'DE'), ('rr', 'HL')]:
            return b'\xeb'
        if ops == [('rr', 'AF'), ('x', "AF'")]:
            return b'\x08'
        if ops[0] == ('m', 'SP') and ops[1][0] == 'rr':
            if ops[1][1] == 'HL':
                return b'\xe3'
            if ops[1][1] in PRE:
                return bytes([PRE[ops[1][1]], 0xe3])
        return None
    if mn == 'IN':
        if n != 2 or ops[0][0] != 'r':
            return None
        if ops[1][0] == 'mn':
            return b'\xdb' + b(ops[1][1]) if ops[0] == ('r', 'A') else None
        if ops[1] == ('m', 'C'):
            return bytes([0xed, 0x40 + 8 * R8[ops[0][1]]])
        return None
    if mn == 'OUT':
        if n != 2 or ops[1][0] != 'r':
            return None
        if ops[0][0] == 'mn':
            return b'\xd3' + b(ops[0][1]) if ops[1] == ('r', 'A') else None
        if ops[0] == ('m', 'C'):
            return bytes([0xed, 0x41 + 8 * R8[ops[1][1]]])
        return None
    if mn == 'RET':
        if n == 0:
            return b'\xc9'
        c = cond(ops[0]) if n == 1 else None
        return None if c is None else bytes([0xc0 + 8 * c])
    if mn in ('JP', 'CALL'):
        if mn == 'JP' and n == 1 and ops[0][0] == 'm':
            return {'HL': b'\xe9', 'IX': b'\xdd\xe9', 'IY': b'\xfd\xe9'}.get(ops[0][1])
        if n == 1 and ops[0][0] == 'n':
            return bytes([0xc3 if mn == 'JP' else 0xcd]) + w(ops[0][1])
        if n == 2 and ops[1][0] == 'n':
            c = cond(ops[0])
            return None if c is None else bytes([(0xc2 if mn == 'JP' else 0xc4) + 8 * c]) + w(ops[1][1])
        return None
    if mn == 'JR':
        if n == 1 and ops[0][0] == 'rel':
            return b'\x18' + b(ops[0][1])
        if n == 2 and ops[1][0] == 'rel':
            c = cond(ops[0])
            return None if c is None or c > 3 else bytes([0x20 + 8 * c]) + b(ops[1][1])
        return None
    if mn == 'DJNZ':
        return b'\x10' + b(ops[0][1]) if n == 1 and ops[0][0] == 'rel' else None
    if mn == 'RST':
        if n == 1 and ops[0][0] == 'n' and ops[0][1] in range(0, 64, 8):
            return bytes([0xc7 + ops[0][1]])
        return None
    if mn == 'IM':
        if n == 1 and ops[0][0] == 'n' and ops[0][1] in (0, 1, 2):
            return b'\xed' + bytes([(0x46, 0x56, 0x5e)[ops[0][1]]])
        return None
    if mn == 'LD':
        return ld(*ops) if n == 2 else None
    raise KeyError(mn)


def ld(d, s):
    A = ('r', 'A')
    if s == A:
        if d == ('m', 'BC'):
            return b'\x02'
        if d == ('m', 'DE'):
            return b'\x12'
        if d[0] == 'mn':
            return b'\x32' + w(d[1])
        if d == ('x', 'I'):
            return b'\xed\x47'
        if d == ('x', 'R'):
            return b'\xed\x4f'
    if d == A:
        if s == ('m', 'BC'):
            return b'\x0a'
        if s == ('m', 'DE'):
            return b'\x1a'
        if s[0] == 'mn':
            return b'\x3a' + w(s[1])
        if s == ('x', 'I'):
            return b'\xed\x57'
        if s == ('x', 'R'):
            return b'\xed\x5f'
    x, y = src8(d), src8(s)
    if x and y:
        if x[1] == 6 and y[1] == 6:
            return None
        return x[0] + y[0] + bytes([0x40 + 8 * x[1] + y[1]]) + x[2] + y[2]
    if x and s[0] == 'n':
        return x[0] + bytes([0x06 + 8 * x[1]]) + x[2] + b(s[1])
    if d[0] == 'rr' and d[1] != 'AF':
        pre, c = reg16(d, R16)
        if s[0] == 'n':
            return pre + bytes([0x01 + 16 * c]) + w(s[1])
        if s[0] == 'mn':
            if c == 2:
                return pre + b'\x2a' + w(s[1])
            return bytes([0xed, 0x4b + 16 * c]) + w(s[1])
        if d[1] == 'SP' and s[0] == 'rr' and s[1] in ('HL', 'IX', 'IY'):
            return (b'' if s[1] == 'HL' else bytes([PRE[s[1]]])) + b'\xf9'
        return None
    if d[0] == 'mn' and s[0] == 'rr' and s[1] != 'AF':
        pre, c = reg16(s, R16)
        if c == 2:
            return pre + b'\x22' + w(d[1])
        return bytes([0xed, 0x43 + 16 * c]) + w(d[1])
    return None
