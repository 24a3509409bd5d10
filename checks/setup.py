#!/usr/bin/env python3
"""Checks that the framework can build and run the program here."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib  # noqa: E402


def go():
    for v in vlib.VARIANTS:
        if v == 'gcov':
            continue
        r = vlib.Runner(v)
        x = r.run(' cpu 6502\n* = $200\n lda #1\n')
        if x.kind != 'exit' or x.code != 0 or x.obj is None:
            raise vlib.HarnessError('%s build does not run: %s %s' % (v, x.describe(), x.err[-500:]))
        r.close()
    print('builds run')


vlib.main(go)
