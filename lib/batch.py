"""Many one-line experiments in one program.

A batch is a list of Line(text, want, ...) assembled after a prologue; the oracle
knows for every line the exact bytes or that it must be refused.
"""
import objfile
import listing


class Line:
    __slots__ = ('text', 'want', 'label', 'key', 'warn')

    def __init__(self, text, want, key=None, warn=None, label=''):
        self.text = text        # without label
        self.want = want        # bytes; None: refuse
        self.key = key or text
        self.warn = warn        # True/False/None (not asserted)
        self.label = label


def src(cpu, lines, prolog=(), epilog=(), org=0x200, head=()):
    out = list(head) + [' cpu %s' % cpu, '* = $%X' % org] + list(prolog)
    first = len(out) + 1
    out += [l.label + ' ' + l.text for l in lines]
    out += list(epilog)
    return '\n'.join(out) + '\n', first


def expect_ok(ctx, cpu, lines, prolog=(), epilog=(), org=0x200, what='', opts=('-l',)):
    """every line must assemble to its bytes; prologue and epilogue emit nothing"""
    text, first = src(cpu, lines, prolog, epilog, org)
    r = ctx.run(text, opts)
    ctx.add('cases', len(lines))
    o = r.o
    if r.kind != 'exit' or r.code != 0:
        ctx.violation('run:%s:%s' % (cpu, r.describe()), '%s: run ended with %s' % (what, r.describe()), r)
        return False
    if o.errors or not o.ok():
        for n, msg in o.errors or [(0, 'no success')]:
            i = n - first
            l = lines[i] if 0 <= i < len(lines) else None
            ctx.violation('refused:%s:%s' % (cpu, l.key if l else 'line %d' % n),
                          '%s: valid line refused: %r (%s)' % (cpu, l.text if l else n, msg), r)
        return False
    try:
        ob = objfile.parse(r.obj or b'')
    except objfile.FormatError as e:
        ctx.violation('format:%s' % cpu, 'object file: %s' % e, r)
        return False
    st = ob.stream()
    pos = 0
    for l in lines:
        got = st[pos:pos + len(l.want)]
        gb = bytes(b for _, b in got)
        if gb != l.want or any(a != ((org + pos + j) & 0xffffffff) for j, (a, _) in enumerate(got)):
            ctx.violation('bytes:%s:%s' % (cpu, l.key), '%s: %r emits %s (at %s), expected %s at %04X' % (
                cpu, l.text, bytes(b for _, b in st[pos:pos + len(l.want) + 2]).hex(), ['%X' % a for a, _ in got[:1]],
                l.want.hex(), org + pos), r)
            return False
        pos += len(l.want)
    if pos != len(st):
        ctx.violation('extra:%s' % cpu, '%s: %d bytes after the last line' % (cpu, len(st) - pos), r)
        return False
    return _warns(ctx, cpu, lines, first, o, r)


def _warns(ctx, cpu, lines, first, o, r):
    wl = {}
    for n in o.warnlines():
        wl[n] = wl.get(n, 0) + 1
    for i, l in enumerate(lines):
        if l.warn is not None and bool(wl.get(first + i)) != l.warn:
            ctx.violation('warn:%s:%s' % (cpu, l.key), '%s: %r: warning %s' % (
                cpu, l.text, 'missing' if l.warn else 'unexpected: %s' % [m for n, m in o.warnings if n == first + i]), r)
            return False
    return True


def expect_refused(ctx, cpu, lines, prolog=(), epilog=(), org=0x200, what=''):
    """every line must be reported as an error, and nothing else"""
    text, first = src(cpu, lines, prolog, epilog, org)
    r = ctx.run(text, ('-l', '-s'))
    ctx.add('cases', len(lines))
    if r.kind != 'exit' or r.code != 0:
        ctx.violation('run:%s:%s' % (cpu, r.describe()), 'run ended with %s' % r.describe(), r)
        return False
    errs = set(r.o.errlines())
    for i, l in enumerate(lines):
        if first + i not in errs:
            ctx.violation('accepted:%s:%s' % (cpu, l.key), '%s: %r must be refused, but was assembled' % (cpu, l.text), r)
            return False
    other = [e for e in r.o.errors if not first <= e[0] < first + len(lines)]
    if other:
        ctx.violation('other:%s' % cpu, '%s: unexpected error %s' % (cpu, other[0]), r)
        return False
    if r.obj is not None:
        ctx.violation('objafter:%s' % cpu, '%s: an object file was left after errors' % cpu, r)
        return False
    return True


def expect_listed(ctx, cpu, lines, prolog=(), epilog=(), org=0x200):
    """accepted and refused lines mixed; the listing shows the bytes of the accepted"""
    text, first = src(cpu, lines, prolog, epilog, org, head=(' page 0,250',))
    r = ctx.run(text, ('-s',))
    ctx.add('cases', len(lines))
    if r.kind != 'exit' or r.code != 0:
        ctx.violation('run:%s:%s' % (cpu, r.describe()), 'run ended with %s' % r.describe(), r)
        return False
    errs = set(r.o.errlines())
    byline = {}
    pend = b''
    for row in listing.rows(r.o):
        if row.kind == 'code':
            pend += row.data or b''
        elif row.kind == 'line':
            byline[row.num] = pend + (row.data or b'')
            pend = b''
    for i, l in enumerate(lines):
        n = first + i
        if l.want is None:
            if n not in errs:
                ctx.violation('accepted:%s:%s' % (cpu, l.key), '%s: %r must be refused, but was assembled' % (cpu, l.text), r)
                return False
        elif n in errs:
            ctx.violation('refused:%s:%s' % (cpu, l.key), '%s: valid line refused: %r' % (cpu, l.text), r)
            return False
        elif byline.get(n) != l.want:
            g = byline.get(n)
            ctx.violation('bytes:%s:%s' % (cpu, l.key), '%s: %r is listed with %s, expected %s' % (
                cpu, l.text, g.hex() if g is not None else None, l.want.hex()), r)
            return False
    return True
