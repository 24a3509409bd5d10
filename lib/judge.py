"""Judgements shared by the checks on generated programs."""
import objfile
import listing


def hexs(p, st, want):
    i = next((i for i in range(min(len(st), len(want))) if st[i] != want[i]), min(len(st), len(want)))
    return 'emitted byte %d: expected %s, found %s (of %d and %d bytes)' % (
        i, ['%X:%02X' % x for x in want[i:i + 3]], ['%X:%02X' % x for x in st[i:i + 3]], len(want), len(st))


def run_ok(ctx, r, tag):
    """the run was a success with an object file; returns the object, or None"""
    if r.kind != 'exit' or r.code != 0 or not r.o.ok():
        ctx.violation('%s:refused' % tag, 'a correct program was refused: %s %s' % (
            r.describe(), r.o.errors[:2] or r.o.fatal), r)
        return None
    if r.obj is None:
        ctx.violation('%s:noobj' % tag, 'success, but no object file', r)
        return None
    try:
        return objfile.parse(r.obj)
    except objfile.FormatError as e:
        ctx.violation('%s:format' % tag, 'malformed object file: %s' % e, r)
        return None


def code(ctx, r, p, tag, stream=None):
    """the object file holds exactly the program's bytes, in order"""
    ob = run_ok(ctx, r, tag)
    if ob is None:
        return False
    want = p.stream() if stream is None else stream
    st = ob.stream()
    if st != want:
        ctx.violation('%s:bytes' % tag, hexs(p, st, want), r)
        return False
    if p is not None and ob.fmt != p.fmt:
        ctx.violation('%s:fmt' % tag, 'object format %s instead of %s' % (ob.fmt, p.fmt), r)
        return False
    return True


def symbols(ctx, r, p, tag, strict=True, marks=True):
    """the symbol table lists exactly the program's symbols"""
    got, junk = listing.symtab(r.o)
    if junk:
        ctx.violation('%s:symjunk' % tag, 'symbol table: unexpected line %r' % junk[0], r)
        return False
    mask = 0xffff if p.cpu else 0xffffffff
    want = [(m, None if v is None else v & mask, k, n[:48]) for m, v, k, n in p.table()]
    if not marks:
        got = [(v, k, n) for _, v, k, n in got]
        want = [(v, k, n) for _, v, k, n in want]
    if got != want:
        d = [x for x in want if x not in got][:3], [x for x in got if x not in want][:3]
        ctx.violation('%s:symbols' % tag, 'symbol table: missing %s, unexpected %s%s' % (
            d[0], d[1], '' if any(d) else ' (order differs)'), r)
        return False
    return True
