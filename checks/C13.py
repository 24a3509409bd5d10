#!/usr/bin/env python3
"""C13: 6800, 6801 and 6803 instructions encode exactly or are refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import cpucheck  # noqa: E402
import enc6800 as e  # noqa: E402


class Fam(cpucheck.Family):
    cpus = ['6800', '6801', '6803']
    shapes = e.SHAPES

    @staticmethod
    def mnemonics():
        return list(e.ops('6801'))

    @staticmethod
    def has(cpu, mn):
        return mn in e.ops(cpu)

    @staticmethod
    def encode(cpu, mn, shape, v, fwd):
        return e.encode(cpu, mn, shape, v, fwd)

    @staticmethod
    def rel(cpu):
        return {m: c['rel'] for m, c in e.ops(cpu).items() if 'rel' in c}


def go():
    c = Check('C13')
    cpucheck.run(c, Fam, c.pick(62, 400))
    c.finish('every mnemonic x operand shape x processor in random order, values, spellings, symbols and forward '
             'references, plus sweeps over all 8 bit values of every valid form; distinct '
             '(processor, mnemonic, shape, valid/refused) are counted', need=10000)


main(go)
