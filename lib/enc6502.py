"""Instruction sets of the 6500, 6502 and 65C02, from the processors' documentation.

OPS[mnemonic][mode] = (opcode, level); level 0: every processor, 1: not on the 6500,
2: 65C02 only.  Modes: imp acc imm zp zpx zpy abs absx absy ind indx indy izp iax rel
"""
OPS = {}


def _op(mn, mode, code, level=0):
    OPS.setdefault(mn, {})[mode] = (code, level)


def _row(mn, spec, level=0):
    for item in spec.split():
        mode, code = item.split(':')
        c2 = mode.endswith('*')
        _op(mn, mode.rstrip('*'), int(code, 16), 2 if c2 else level)


_row('ORA', 'imm:09 zp:05 zpx:15 abs:0D absx:1D absy:19 indx:01 indy:11 izp*:12')
_row('AND', 'imm:29 zp:25 zpx:35 abs:2D absx:3D absy:39 indx:21 indy:31 izp*:32')
_row('EOR', 'imm:49 zp:45 zpx:55 abs:4D absx:5D absy:59 indx:41 indy:51 izp*:52')
_row('ADC', 'imm:69 zp:65 zpx:75 abs:6D absx:7D absy:79 indx:61 indy:71 izp*:72')
_row('STA', 'zp:85 zpx:95 abs:8D absx:9D absy:99 indx:81 indy:91 izp*:92')
_row('LDA', 'imm:A9 zp:A5 zpx:B5 abs:AD absx:BD absy:B9 indx:A1 indy:B1 izp*:B2')
_row('CMP', 'imm:C9 zp:C5 zpx:D5 abs:CD absx:DD absy:D9 indx:C1 indy:D1 izp*:D2')
_row('SBC', 'imm:E9 zp:E5 zpx:F5 abs:ED absx:FD absy:F9 indx:E1 indy:F1 izp*:F2')
_row('ASL', 'acc:0A zp:06 zpx:16 abs:0E absx:1E')
_row('ROL', 'acc:2A zp:26 zpx:36 abs:2E absx:3E')
_row('LSR', 'acc:4A zp:46 zpx:56 abs:4E absx:5E')
_row('ROR', 'acc:6A zp:66 zpx:76 abs:6E absx:7E', 1)
_row('LDX', 'imm:A2 zp:A6 zpy:B6 abs:AE absy:BE')
_row('LDY', 'imm:A0 zp:A4 zpx:B4 abs:AC absx:BC')
_row('CPX', 'imm:E0 zp:E4 abs:EC')
_row('CPY', 'imm:C0 zp:C4 abs:CC')
_row('STX', 'zp:86 zpy:96 abs:8E')
_row('STY', 'zp:84 zpx:94 abs:8C')
_row('INC', 'zp:E6 zpx:F6 abs:EE absx:FE acc*:1A')
_row('DEC', 'zp:C6 zpx:D6 abs:CE absx:DE acc*:3A')
_row('BIT', 'zp:24 abs:2C imm*:89 zpx*:34 absx*:3C')
_row('JMP', 'abs:4C ind:6C iax*:7C')
_row('JSR', 'abs:20')
_row('STZ', 'zp*:64 zpx*:74 abs*:9C absx*:9E')
_row('TSB', 'zp*:04 abs*:0C')
_row('TRB', 'zp*:14 abs*:1C')
for _l in '''NOP:EA BRK:00 RTI:40 RTS:60 PHA:48 PLA:68 PHP:08 PLP:28 DEX:CA DEY:88 INX:E8 INY:C8
TSX:BA TXS:9A TAX:AA TXA:8A TAY:A8 TYA:98 CLC:18 CLV:B8 CLI:58 CLD:D8 SEC:38 SEI:78 SED:F8'''.split():
    _op(_l[:3], 'imp', int(_l[4:], 16))
for _l in 'PHX:DA PLX:FA PHY:5A PLY:7A'.split():
    _op(_l[:3], 'imp', int(_l[4:], 16), 2)
# BHI, BLO, BGT, BLE are the assembler's own names for BCS, BCC, BPL, BMI
for _l in 'BPL:10 BMI:30 BVC:50 BVS:70 BCC:90 BCS:B0 BNE:D0 BEQ:F0 BHI:B0 BLO:90 BGT:10 BLE:30'.split():
    _op(_l[:3], 'rel', int(_l[4:], 16))
_op('BRA', 'rel', 0x80, 2)

LEVEL = {'6500': 0, '6502': 1, '65C02': 2}
# operand shapes as they are written; %s is the expression
SHAPES = {
    'none': '', 'A': 'A', '#': '#%s', 'e': '%s', 'e,X': '%s,X', 'e,Y': '%s,Y',
    '(e)': '(%s)', '(e,X)': '(%s,X)', '(e),Y': '(%s),Y',
    '@e': '@%s', '@e,X': '@%s,X', '@e,Y': '@%s,Y',
}
ALIAS = {'@e': '(e)', '@e,X': '(e,X)', '@e,Y': '(e),Y'}
MODES = {
    'none': ['imp', 'acc'], 'A': ['acc'], '#': ['imm'],
    'e': ['zp', 'abs'], 'e,X': ['zpx', 'absx'], 'e,Y': ['zpy', 'absy'],
    '(e)': ['izp', 'ind'], '(e,X)': ['indx', 'iax'], '(e),Y': ['indy'],
}
ONEBYTE = {'imm', 'zp', 'zpx', 'zpy', 'izp', 'indx', 'indy'}
NOOPER = {'imp', 'acc'}


def mnemonics(cpu):
    """all mnemonics the processor's vocabulary has"""
    return [m for m in OPS if cpu == '65C02' or not all(l == 2 for _, l in OPS[m].values())
            or m in ()]


def encode(cpu, mn, shape, value=None, forward=False):
    """bytes, or None: must be refused, or 'any': either the encoding of the short
    form or a refusal (a short-only mode with a forward reference).
    Relative branches are not handled here."""
    lev = LEVEL[cpu]
    modes = {m: c for m, (c, l) in OPS[mn].items() if l <= lev}
    cand = [m for m in MODES[ALIAS.get(shape, shape)] if m in modes]
    if not cand:
        return None
    if shape in ('none', 'A'):
        return bytes([modes[cand[0]]])
    if shape == '#':
        return bytes([modes['imm'], value & 0xff])
    short = [m for m in cand if m in ONEBYTE]
    long = [m for m in cand if m not in ONEBYTE]
    if short and not forward and 0 <= value < 256:
        return bytes([modes[short[0]], value])
    if long:
        return bytes([modes[long[0]], value & 0xff, (value >> 8) & 0xff])
    if forward:
        return 'any'
    return None
