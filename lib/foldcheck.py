"""Folded programs (conditionals, includes, macros) judged against their flat truth."""
import fold
import gen
import judge
import listing
import objfile


def listed(o):
    """what a listing shows beside each line that emits: (address, bytes, abbreviated?)"""
    res = []
    cur = None
    for row in listing.rows(o):
        if row.data:
            if cur is None:
                cur = [row.addr, b'', False]
            elif (row.addr - cur[0] - len(cur[1])) & 0xffff:
                res.append(tuple(cur))      # cannot happen inside one line
                cur = [row.addr, b'', False]
            cur[1] += row.data
            cur[2] = cur[2] or row.dots
        if row.kind == 'line' and cur is not None:
            res.append(tuple(cur))
            cur = None
    if cur is not None:
        res.append(tuple(cur))
    return res


def wanted(p):
    return [(x.addr, x.data) for x in p.lines if not x.err and x.code and x.data]


def compare(ls, want):
    """None, or what differs between the listed and the wanted lines"""
    for i, (a, b) in enumerate(zip(ls, want)):
        addr, data, dots = a
        # more than 20 bytes may be abbreviated
        if addr != b[0] or data != b[1] and not (len(b[1]) > 20 and len(data) >= 4 and b[1].startswith(data)):
            return 'listed code %d: expected %X: %s, found %X: %s%s' % (i, b[0], b[1].hex(), addr, data.hex(), '...' * dots)
    if len(ls) != len(want):
        return '%d lines with code are listed, expected %d' % (len(ls), len(want))
    return None


def random_fold(ctx, tag, kinds, faults, n=None, density=None, maxdepth=None, generic=.1, **k):
    """one random program, folded; returns nothing, reports to ctx"""
    rng = ctx.check.rng(tag, faults)
    p = gen.program(rng, n=n or rng.choice([5, 20, 40, 80]), faults=faults, comments=rng.random() < .7, far=False,
                    low=rng.random() < .3, warns=.03 if rng.random() < .3 else 0, undef=False, **k)
    f = fold.Fold(p, rng, kinds=kinds, density=density or rng.choice([.05, .12, .3]),
                  maxdepth=maxdepth or rng.choice([2, 4, 8]), generic=generic if 'mac' in kinds else 0)
    files = f.build()
    for key, v in f.stats.items():
        ctx.add('folds_' + key, v)
    ctx.seen('depths', f.depthseen)
    ctx.add('cases')
    ctx.add('lines', len(p.lines))
    ctx.seen('nontrivial', tuple(sorted(files.items())) if f.depthseen else None)
    for s in f.used:
        p.syms[s].used = True
    for m in f.macros:
        p.syms[m.upper()] = s = gen.Sym(m)
        s.kind = 'Macro'
    return judge_fold(ctx, p, files, f, tag)


def judge_fold(ctx, p, files, f, tag):
    if not p.errors():
        r = ctx.run(files, ('-l', '-x'))
        if not judge.code(ctx, r, p, 'fold'):
            return False
        if r.o.nwarn != len(p.warnings()):
            # a junk branch must not warn, a warned line must
            ctx.violation('fold:warnings', '%d warnings instead of %d' % (r.o.nwarn, len(p.warnings())), r)
            return False
        return judge.symbols(ctx, r, p, 'fold', marks=False)
    files = dict(files)
    main = files['t.asm']
    files['t.asm'] = ' page 0,250\n mlist on\n ilist on\n' + main
    r = ctx.run(files, ())
    if r.kind != 'exit' or r.code != 0 or r.o.fatal:
        ctx.violation('fold:end', 'ended with %s %s' % (r.describe(), r.o.fatal), r)
        return False
    if len(r.o.errors) != len(p.errors()) or r.o.nerr != len(p.errors()):
        ctx.violation('fold:errors', '%d errors reported (summary: %s), %d lines are faulty' % (
            len(r.o.errors), r.o.nerr, len(p.errors())), r)
        return False
    if r.obj is not None:
        ctx.violation('fold:objafter', 'an object file in spite of errors', r)
        return False
    bad = compare(listed(r.o), wanted(p))
    if bad:
        ctx.violation('fold:listed', bad, r)
        return False
    ctx.add('faulty_programs')
    return True


def same(ctx, ra, rb, tag, what, symbols=True, drop=None, errors=True):
    """two runs mean the same: object bytes, symbols, error count"""
    for r in (ra, rb):
        if r.kind != 'exit' or r.code not in (0, 10):
            ctx.violation(tag + ':end', '%s: ended with %s' % (what, r.describe()), r)
            return False
    if bool(ra.o.fatal) != bool(rb.o.fatal):
        ctx.violation(tag + ':fatal', '%s: fatal error %s against %s' % (what, ra.o.fatal, rb.o.fatal), ra)
        return False
    if errors and (ra.o.nerr != rb.o.nerr or len(ra.o.errors) != len(rb.o.errors)):
        ctx.violation(tag + ':errors', '%s: %s errors against %s' % (what, ra.o.nerr, rb.o.nerr), ra,
                      extra='other run:\n' + rb.o.text[-6000:])
        return False
    if ra.o.ok() != rb.o.ok():
        ctx.violation(tag + ':verdict', '%s: success %s against %s' % (what, ra.o.ok(), rb.o.ok()), ra,
                      extra='other run:\n' + rb.o.text[-6000:])
        return False
    if ra.obj != rb.obj:
        a = b = None
        try:
            a = objfile.parse(ra.obj or b'').stream()
            b = objfile.parse(rb.obj or b'').stream()
        except objfile.FormatError:
            pass
        if a is None or a != b:
            i = next((i for i, (x, y) in enumerate(zip(a or [], b or [])) if x != y), None)
            ctx.violation(tag + ':object', '%s: the object files differ at byte %s' % (what, i), ra,
                          extra='other object:\n' + (rb.obj or b'None').decode('latin-1')[:6000])
            return False
    if symbols and ra.o.ok():
        sa, ja = listing.symtab(ra.o)
        sb, jb = listing.symtab(rb.o)
        if drop:
            sa = [x for x in sa if not drop(x)]
            sb = [x for x in sb if not drop(x)]
        if [x[1:] for x in sa] != [x[1:] for x in sb]:
            ctx.violation(tag + ':symbols', '%s: symbols differ: %s' % (what, [x for x in sa if x not in sb][:3] +
                                                                       [x for x in sb if x not in sa][:3]), ra)
            return False
    return True
