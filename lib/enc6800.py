"""Instruction sets of the 6800 and the 6801/6803.

OPS[mnemonic][mode] = opcode, modes: inh imm8 imm16 dir idx ext rel; OPS1: 6801 only.
The assembler's table has no direct form of JSR and no 6801 form of CPX etc. beyond
the 6800 ones, so neither has this table.
"""
OPS = {}
OPS1 = {}


def _mem(mn, base):
    OPS[mn] = {'idx': base + 0x20, 'ext': base + 0x30}


def _acc(mn, base, imm='imm8', tab=OPS):
    tab[mn] = {'dir': base + 0x10, 'idx': base + 0x20, 'ext': base + 0x30}
    if imm:
        tab[mn][imm] = base


for _l in '''BRA:20 BSR:8D BHI:22 BLS:23 BCC:24 BCS:25 BNE:26 BEQ:27 BVC:28 BVS:29 BPL:2A BMI:2B
BGE:2C BLT:2D BGT:2E BLE:2F'''.split():
    OPS[_l[:3]] = {'rel': int(_l[4:], 16)}
for _l in '''NOP:01 TAP:06 TPA:07 INX:08 DEX:09 CLV:0A SEV:0B CLC:0C SEC:0D CLI:0E SEI:0F SBA:10 CBA:11
TAB:16 TBA:17 DAA:19 ABA:1B TSX:30 INS:31 PULA:32 PULB:33 DES:34 TXS:35 PSHA:36 PSHB:37 RTS:39 RTI:3B
WAI:3E SWI:3F NEGA:40 COMA:43 LSRA:44 RORA:46 ASRA:47 ASLA:48 ROLA:49 DECA:4A INCA:4C TSTA:4D CLRA:4F
NEGB:50 COMB:53 LSRB:54 RORB:56 ASRB:57 ASLB:58 ROLB:59 DECB:5A INCB:5C TSTB:5D CLRB:5F'''.split():
    _m, _c = _l.split(':')
    OPS[_m] = {'inh': int(_c, 16)}
for _l in 'NEG:40 COM:43 LSR:44 ROR:46 ASR:47 ASL:48 ROL:49 DEC:4A INC:4C TST:4D JMP:4E CLR:4F'.split():
    _mem(_l[:3], int(_l[4:], 16))
_mem('JSR', 0x8d)
for _i, _m in enumerate('SUB CMP SBC - AND BIT LDA - EOR ADC ORA ADD'.split()):
    if _m != '-':
        _acc(_m + 'A', 0x80 + _i)
        _acc(_m + 'B', 0xc0 + _i)
_acc('STAA', 0x87, None)
_acc('STAB', 0xc7, None)
_acc('CPX', 0x8c, 'imm16')
_acc('LDS', 0x8e, 'imm16')
_acc('STS', 0x8f, None)
_acc('LDX', 0xce, 'imm16')
_acc('STX', 0xcf, None)
for _l in 'LSRD:04 ASLD:05 PULX:38 ABX:3A PSHX:3C MUL:3D'.split():
    _m, _c = _l.split(':')
    OPS1[_m] = {'inh': int(_c, 16)}
OPS1['BRN'] = {'rel': 0x21}
_acc('SUBD', 0x83, 'imm16', OPS1)
_acc('ADDD', 0xc3, 'imm16', OPS1)
_acc('LDD', 0xcc, 'imm16', OPS1)
_acc('STD', 0xcd, None, OPS1)

SHAPES = {'none': '', '#': '#%s', 'e': '%s', 'e,X': '%s,X', ',X': ',X'}


def ops(cpu):
    d = dict(OPS)
    if cpu != '6800':
        d.update(OPS1)
    return d


def encode(cpu, mn, shape, value=None, forward=False):
    """bytes or None (must be refused)"""
    modes = ops(cpu).get(mn)
    if modes is None:
        return None
    if shape == 'none':
        return bytes([modes['inh']]) if 'inh' in modes else None
    if shape == '#':
        if 'imm8' in modes:
            return bytes([modes['imm8'], value & 0xff])
        if 'imm16' in modes:
            return bytes([modes['imm16'], (value >> 8) & 0xff, value & 0xff])
        return None
    if shape == ',X':
        value = 0
    if shape in ('e,X', ',X'):
        if 'idx' not in modes or not 0 <= value < 256:
            return None
        return bytes([modes['idx'], value])
    if 'dir' in modes and not forward and 0 <= value < 256:
        return bytes([modes['dir'], value])
    if 'ext' in modes:
        return bytes([modes['ext'], (value >> 8) & 0xff, value & 0xff])
    return None
