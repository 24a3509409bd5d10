#!/usr/bin/env python3
"""C12: 6500, 6502 and 65C02 instructions encode exactly or are refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import cpucheck  # noqa: E402
import enc6502 as e  # noqa: E402


class Fam(cpucheck.Family):
    cpus = ['6500', '6502', '65C02']
    shapes = dict(e.SHAPES, X='X', Y='Y', S='S', P='P')

    @staticmethod
    def mnemonics():
        return list(e.OPS)

    @staticmethod
    def has(cpu, mn):
        return any(l <= e.LEVEL[cpu] for _, l in e.OPS[mn].values())

    @staticmethod
    def encode(cpu, mn, shape, v, fwd):
        if shape in ('X', 'Y', 'S', 'P'):
            return None                 # a register is no operand
        return e.encode(cpu, mn, shape, v, fwd)

    @staticmethod
    def rel(cpu):
        return {m: c['rel'][0] for m, c in e.OPS.items() if 'rel' in c and c['rel'][1] <= e.LEVEL[cpu]}


def go():
    c = Check('C12')
    cpucheck.run(c, Fam, c.pick(50, 300))
    c.finish('every mnemonic x operand shape x processor in random order, values, spellings, symbols and forward '
             'references, plus sweeps over all 8 bit values of every valid form; distinct '
             '(processor, mnemonic, shape, valid/refused) are counted', need=10000)


main(go)
