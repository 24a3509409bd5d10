#!/usr/bin/env python3
"""C04: the object file holds exactly the emitted bytes at their addresses."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import judge  # noqa: E402
import objwork  # noqa: E402


def one(ctx, item):
    rng = ctx.check.rng(item)
    text, stream, fmt = objwork.work(rng, item)
    opts = rng.choice([('-l',), ('-l',), (), ('-s', '-l'), ('-x',)])
    if item[0] == 'big':
        opts = ('-l',)
    r = ctx.run(text, opts)
    ctx.add('cases')
    ctx.add('bytes', len(stream))
    if stream:
        ctx.seen('nontrivial', text)
    ctx.sample(text[:300])
    tag = item[0]
    ob = judge.run_ok(ctx, r, tag)
    if ob is None:
        return
    st = ob.stream()
    if st != stream:
        ctx.violation(tag + ':bytes', judge.hexs(None, st, stream), r)
        return
    if ob.fmt != fmt:
        ctx.violation(tag + ':format', 'format %s instead of %s' % (ob.fmt, fmt), r)
        return
    for kd in ob.kinds:
        ctx.add('records_' + kd)
    # the other format holds the same image
    if rng.random() < .35 and item[0] != 'big':
        other = {'S': 'hex', 'H': 'scode'}[fmt]
        if re.search(r'(?m)^ output ', text):
            t2 = re.sub(r'(?mi)^ output \w+', ' output ' + other, text)
        else:
            t2 = ' output %s\n' % other + text
        r2 = ctx.run(t2, opts)
        ctx.add('format_pairs')
        o2 = judge.run_ok(ctx, r2, tag + '-other')
        if o2 is not None and (o2.stream() != stream or o2.fmt == fmt):
            ctx.violation(tag + ':other', 'the two formats differ: ' + judge.hexs(None, o2.stream(), stream), r2)


def go():
    c = Check('C04')
    c.parallel(one, objwork.items(c, c.pick(10000, 150000), c.pick(100, 1000), c.pick(100, 400), c.pick(3, 4)))
    c.finish('random programs, all sequences of up to 3 (thorough: 4) edge steps (record boundaries, gaps, overlaps, '
             'DUMMY, origins), pairs at boundary addresses, large fills; the decoded (address, byte) sequence is compared '
             'with the one expected, in both formats; non-trivial: distinct programs that emit', need=1000)


main(go)
