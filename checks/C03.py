#!/usr/bin/env python3
"""C03: every object file is well formed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import objfile  # noqa: E402
import objwork  # noqa: E402


def one(ctx, item):
    rng = ctx.check.rng(item)
    text, stream, fmt = objwork.work(rng, item)
    r = ctx.run(text, ('-l', '-s'))
    ctx.add('cases')
    if r.obj is None:
        if r.o.ok():
            ctx.violation('noobj', 'success without an object file', r)
        return
    try:
        ob = objfile.parse(r.obj)
    except objfile.FormatError as e:
        ctx.violation('format', str(e), r)
        return
    ctx.seen('nontrivial', r.obj)
    for kd, (a, d) in zip([k for k in ob.kinds if k in ('S1', 'S2', 'S3', 'H00')], ob.runs):
        ctx.seen('record_shapes', (kd, len(d), (a & 0xffff) + len(d) > 0x10000))
    if ob.fmt != fmt:
        ctx.violation('fmt', 'the file has format %s, %s was selected' % (ob.fmt, fmt), r)
        return
    # the address width is enough for the first byte of each record: every record
    # starts at an address the program emitted to
    emitted = {a for a, _ in stream}
    for a, d in ob.runs:
        if a not in emitted:
            ctx.violation('address', 'a record starts at %X, where nothing was emitted' % a, r)
            return
    want = 'S9' if fmt == 'S' else 'H01'
    if ob.kinds.count(want) != 1 or ob.kinds[-1] != want:
        ctx.violation('end', 'terminator', r)
    ctx.sample(r.obj.decode('latin-1')[:200])


def empty(ctx, k):
    """programs without code still make a well formed file"""
    rng = ctx.check.rng('e', k)
    fmt = rng.choice(['S', 'H'])
    cpu = rng.choice(['', ' cpu 6502\n', ' cpu Z80\n', ' cpu 6801\n'])
    o = ' output %s\n' % {'S': 'scode', 'H': 'hex'}[fmt]
    body = rng.choice(['', '* = $200\n', 'xx = 5\n', '* = $200\n dummy\n db 1,2,3\n', '* = 0\n ds 0\n', '; c\n'])
    r = ctx.run(cpu + o + body, ('-l',))
    ctx.add('cases')
    try:
        ob = objfile.parse(r.obj or b'')
        if ob.fmt != fmt or ob.runs:
            ctx.violation('empty', 'wrong content of an empty program', r)
    except objfile.FormatError as e:
        ctx.violation('empty', 'empty program: %s' % e, r)


def go():
    c = Check('C03')
    c.parallel(one, objwork.items(c, c.pick(7500, 100000), c.pick(75, 800), c.pick(75, 300), c.pick(3, 4)))
    c.parallel(empty, range(200))
    c.finish('random programs, all sequences of up to 3 (thorough: 4) edge steps, boundary addresses and large fills; each '
             'file is read by a strict parser; non-trivial: distinct object files', need=1000)


main(go)
