#!/usr/bin/env python3
"""C05: the code file is complete or absent, never partial or stale.

Fault injection: every kind of error at every line of a program, fatal errors, and a
write failure at every byte of the code file (a file size limit, so the failure
happens in the C library's write or close), with no file or an old file in place.
Monitor: the directory after the run, the verdict, and the content against the
independently known bytes.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main  # noqa: E402
import gen  # noqa: E402
import judge  # noqa: E402
import objwork  # noqa: E402
import objfile  # noqa: E402

STALE = [None, b'', b'S1040200AA4F\nS9030000FC\n', b':00000001FF\n', b'garbage\n' * 2000, b'S1']

# what makes a line faulty; each may stand anywhere (the lines of it, in order)
FAULTS = [
    [' frobnicate'], [' db nosuchsymbol'], [' db 5+'], [' db'], [' dw 5 5'], [' fail stop here'], [' fail'],
    [' endm 5'], [' endc'], [' else'], [' exitm x'], [' if 1'], [' if 0'], ['mm%d macro'], [' if 1', ' else'],
    [' include nosuchfile'], [' include'], [' cpu 4004'], [' output ELF'], [' list perhaps'], [' page 1,1'], [' skip x'],
    [' align both'], [' ds -1'], [' asc 5'], [' asc "open'], ["lab%d", "lab%d"], ['a%d = 1', 'a%d db 2'], ['db = 5'], ['* db 1'],
    ['un%d = nosuch2'], [' title'], [' db .nosuchlocal'], [' name'], ['* = nosuch3'], [' db ' + '1,' * 125 + '1'],
    [' code 5'], [' dummy x'], [' clist on off'], [' db $100000000'], [" db 'x"], [' if nosuch4', ' db 1', ' endc'],
]
FATALS = {
    'ifs': (' if 1\n' * 1001, {}),
    'includes': (' include loop.inc\n', {'loop.inc': ' include loop.inc\n'}),
    'macros': ('deep macro\n deep\n endm\n deep\n', {}),
    'mixed': ('deep macro\n include d.inc\n endm\n deep\n', {'d.inc': ' deep\n'}),
}


def program(rng):
    """a correct program and its stream"""
    if rng.random() < .5:
        p = gen.program(rng, n=rng.choice([3, 10, 30, 80]), low=rng.random() < .3)
        return p.text(), p.stream(), p.fmt
    return objwork.work(rng, rng.choice([('prog', 0), ('prog', 1), ('pair', rng.choice(objwork.ORGS), rng.choice('SH'), 0)]))


def exists(r, ctx):
    return os.path.lexists(os.path.join(ctx.runner().work, 'code.out'))


def files_after(ctx):
    res = set()
    w = ctx.runner().work
    for root, _, names in os.walk(w):
        for n in names:
            res.add(os.path.relpath(os.path.join(root, n), w))
    return res


def gone(ctx, r, what, key, stale):
    if exists(r, ctx):
        old = stale is not None and r.obj == stale
        ctx.violation(key + (':stale' if old else ':partial'), '%s: a code file %s' % (
            what, 'of an earlier run is left' if old else 'is left (%d bytes)' % len(r.obj or b'')), r)
        return False
    return True


def complete(ctx, r, stream, fmt, what, key):
    if not r.o.ok() or r.code != 0 or r.kind != 'exit':
        ctx.violation(key + ':refused', '%s: a correct program is refused: %s' % (what, r.o.errors[:2] or r.o.fatal), r)
        return False
    if r.obj is None:
        ctx.violation(key + ':missing', '%s: success, but no code file' % what, r)
        return False
    try:
        ob = objfile.parse(r.obj)
    except objfile.FormatError as e:
        ctx.violation(key + ':format', '%s: %s' % (what, e), r)
        return False
    if ob.stream() != stream or ob.fmt != fmt:
        ctx.violation(key + ':content', '%s: the code file does not hold exactly the program' % what, r)
        return False
    return True


def put(rng, lines, fault, at, n):
    return lines[:at] + [l.replace('%d', 'q%d' % n) if '%d' in l else l for l in fault] + lines[at:]


def errors(ctx, k):
    """a fault of every kind, at a random place, in the main file, a macro or an include"""
    rng = ctx.check.rng('err', k)
    text, stream, fmt = program(rng)
    lines = text.split('\n')[:-1]
    stale = rng.choice(STALE)
    opts = rng.choice([('-l',), (), ('-s',), ('-x', '-l'), ('-slx',)])
    base = {} if stale is None else {'code.out': stale}
    r = ctx.run(dict(base, **{'t.asm': text}), opts)
    ctx.add('cases')
    if not complete(ctx, r, stream, fmt, 'no fault', 'ok'):
        return
    for j, fault in enumerate(FAULTS):
        at = rng.choice([0, 1, len(lines), len(lines), rng.randrange(len(lines) + 1), rng.randrange(len(lines) + 1)])
        where = rng.choice(['main', 'main', 'main', 'include', 'macro', 'cond'])
        fs = dict(base)
        ls = lines
        if where == 'main' or len(fault) != 1 or '%d' in fault[0] or 'if' in fault[0]:
            where = 'main'
            if fault[0].startswith(('* = nosuch', ' if 1', ' if 0', 'mm')):
                at = len(lines)         # these swallow or displace what follows
            ls = put(rng, lines, fault, at, j)
        elif where == 'include':
            fs['f.inc'] = ' \n' * rng.randrange(3) + fault[0] + '\n'
            ls = lines[:at] + [' include f.inc'] + lines[at:]
        elif where == 'macro':
            if 'endm' in fault[0]:
                continue
            ls = ['fm%d macro' % j, fault[0], ' endm'] + lines[:at] + [' fm%d' % j] + lines[at:]
        else:
            if fault[0] in (' else', ' endc'):
                continue
            ls = lines[:at] + [' if 1', fault[0], ' endc'] + lines[at:]
        fs['t.asm'] = '\n'.join(ls) + '\n'
        stale = rng.choice(STALE)
        fs.pop('code.out', None)
        if stale is not None:
            fs['code.out'] = stale
        r = ctx.run(fs, opts)
        ctx.add('cases')
        key = 'err:%s' % fault[0].strip()[:24].replace(' ', '_')
        what = 'fault %r at line %d (%s)' % (fault[0][:40], at + 1, where)
        if r.kind != 'exit' or r.code != 0 or r.o.fatal:
            ctx.violation(key + ':end', '%s: ended with %s %s' % (what, r.describe(), r.o.fatal), r)
            return
        if r.o.ok() or not r.o.nerr or not r.o.nocode:
            ctx.violation(key + ':silent', '%s: is not reported' % what, r)
            return
        if not gone(ctx, r, what, key, stale):
            return
        ctx.seen('nontrivial', (fault[0], where, 'first' if not at else 'last' if at == len(lines) else 'mid', stale))
        ctx.add('errors_seen')


def everyline(ctx, k):
    """one program, one kind of fault at each of its lines"""
    rng = ctx.check.rng('line', k)
    text, stream, fmt = program(rng)
    lines = text.split('\n')[:-1]
    fault = rng.choice([f for f in FAULTS if not f[0].startswith(('* = nosuch', ' if 1', ' if 0', 'mm'))])
    for at in range(len(lines) + 1):
        fs = {'t.asm': '\n'.join(put(rng, lines, fault, at, at)) + rng.choice(['\n', ''])}
        stale = rng.choice(STALE)
        if stale is not None:
            fs['code.out'] = stale
        r = ctx.run(fs, rng.choice([('-l',), ()]))
        ctx.add('cases')
        what = 'fault %r at line %d' % (fault[0][:40], at + 1)
        key = 'line:%s' % fault[0].strip()[:24].replace(' ', '_')
        if r.kind != 'exit' or r.code or r.o.fatal or r.o.ok() or not r.o.nerr:
            ctx.violation(key + ':silent', '%s: is not reported: %s' % (what, r.describe()), r)
            return
        if not gone(ctx, r, what, key, stale):
            return
        ctx.seen('nontrivial', (fault[0], at, len(lines)))


def fatals(ctx, k):
    rng = ctx.check.rng('fatal', k)
    text, stream, fmt = program(rng)
    lines = text.split('\n')[:-1]
    for name, (t, extra) in FATALS.items():
        at = rng.choice([0, len(lines), rng.randrange(len(lines) + 1)])
        fs = dict(extra)
        fs['t.asm'] = '\n'.join(lines[:at]) + '\n' + t + '\n'.join(lines[at:]) + '\n'
        stale = rng.choice(STALE[1:])
        fs['code.out'] = stale
        r = ctx.run(fs, rng.choice([('-l',), ('-ls',), ('-lx',)]))
        ctx.add('cases')
        if r.kind != 'exit' or r.code == 0 or not r.o.fatal:
            ctx.violation('fatal:%s:end' % name, 'fatal error %s: ended with %s, %s' % (name, r.describe(), r.o.fatal), r)
            return
        if not gone(ctx, r, 'fatal error %s at line %d' % (name, at + 1), 'fatal:' + name, stale):
            return
        ctx.add('fatal_seen')
        ctx.seen('nontrivial', (name, at == 0, at == len(lines), stale))
    # a fatal error that only the second pass meets, after code has been written: the
    # nesting depends on a symbol that is known only then
    body = ' if 1\n' * 1001
    ins = lines + ['* = $200', ' db 1,2,3', ' include d.inc']
    fs = {'t.asm': '\n'.join(ins) + '\n', 'd.inc': ' db 4\n' + body, 'code.out': STALE[2]}
    r = ctx.run(fs, ('-l',))
    ctx.add('cases')
    if r.kind == 'exit' and r.code and r.o.fatal:
        gone(ctx, r, 'fatal error in an include', 'fatal:inc', STALE[2])
    else:
        ctx.violation('fatal:inc:end', 'ended with %s' % r.describe(), r)


def source(rng, k):
    """(text, stream, fmt) with a code file of a wanted size class"""
    if k % 4:
        b = objwork.Builder(rng, rng.choice([None, '6502', 'Z80', '6800']), rng.choice('SH'))
        b.org(rng.choice(objwork.ORGS[:9]))
        for _ in range(rng.randrange(0, 4)):
            objwork.step(b, rng.choice(['b1', 'b2', 'b16', 'b17', 'o+16', 'far']))
        return b.text(), b.stream, b.fmt
    b = objwork.Builder(rng, None, rng.choice('SH'))
    b.org(rng.choice([0, 0x200, 0xfff0]))
    b.fill(rng.choice([1400, 1500, 1560, 1600, 3000, 3100, 6000, 20000]))
    b.bytes(rng.randrange(20))
    return b.text(), b.stream, b.fmt


def writes(ctx, k):
    """the file system is full after n bytes, for every n"""
    rng = ctx.check.rng('write', k)
    text, stream, fmt = source(rng, k)
    opts = rng.choice([('-l',), (), ('-s',), ('-lx',)])
    ref = ctx.run(text, opts)
    ctx.add('cases')
    if not complete(ctx, ref, stream, fmt, 'no fault', 'ok'):
        return
    size = len(ref.obj)
    if size < 600:
        cuts = range(size + 2)
    else:
        cuts = set(rng.randrange(size) for _ in range(ctx.check.pick(40, 300)))
        for base in range(0, size + 4096, 4096):
            cuts |= {base - 1, base, base + 1}
        cuts |= {0, 1, size - 1, size - 2, size - 11, size - 12, size, size + 1}
        cuts = sorted(c for c in cuts if 0 <= c <= size + 1)
    for n in cuts:
        stale = rng.choice(STALE)
        if stale is not None and len(stale) > n:
            stale = None
        fs = {'t.asm': text}
        if stale is not None:
            fs['code.out'] = stale
        r = ctx.run(fs, opts, fsize=n)
        ctx.add('cases')
        what = 'writing fails after %d of %d bytes' % (n, size)
        if n >= size:
            if r.obj != ref.obj or not r.o.ok():
                ctx.violation('write:enough', '%s: the run is not a plain success' % what, r)
                return
            continue
        ctx.add('write_faults')
        if r.kind != 'exit':
            ctx.violation('write:end', '%s: ended with %s' % (what, r.describe()), r)
            return
        if not gone(ctx, r, what, 'write', stale):
            return
        if r.o.ok() or r.o.success or not (r.code or r.o.nerr):
            ctx.violation('write:silent', '%s: reported as a success' % what, r)
            return
        ctx.seen('nontrivial', ('write', n, size))


def opens(ctx, k):
    """the code file cannot be opened; what is in place of it is not ours"""
    rng = ctx.check.rng('open', k)
    text, stream, fmt = program(rng)
    if not stream:
        return
    run = ctx.runner()
    for name in ('no/such/dir/x', 'adir', 'adir/sub/', 't.asm/x', 'a' * 300):
        run.clean()
        with open(os.path.join(run.work, 't.asm'), 'wb') as f:
            f.write(text.encode('latin-1'))
        os.makedirs(os.path.join(run.work, 'adir', 'sub'))
        with open(os.path.join(run.work, 'adir', 'sub', 'f'), 'w') as f:
            f.write('keep')
        before = files_after(ctx)
        r = run.raw(['-l', '-o', name, 't.asm'])
        r.files, r.args = {'t.asm': text}, ['-l', '-o', name, 't.asm']
        ctx.add('executions')
        ctx.add('cases')
        if r.kind != 'exit' or r.o.ok() or not (r.code or r.o.nerr):
            ctx.violation('open:silent', 'the code file %r cannot be opened, but the run ends with %s %s' % (
                name[:20], r.describe(), r.o.success), r)
            return
        if files_after(ctx) != before:
            ctx.violation('open:files', 'files changed: %s' % (files_after(ctx) ^ before), r)
            return
        ctx.seen('nontrivial', ('open', name, k))


def special(ctx, k):
    """what stands in place of the code file and is no regular file stays there"""
    rng = ctx.check.rng('spec', k)
    text, stream, fmt = program(rng)
    if len(stream) > 12000:         # more than a pipe holds
        return
    run = ctx.runner()
    for kind in ('dir', 'linkdir', 'fifo', 'null', 'link'):
        lines = text.split('\n')[:-1]
        bad = rng.random() < .7
        if bad:
            lines = put(rng, lines, rng.choice([[' frob'], [' db'], [' fail x'], [' endc'], ['9x = 5']]), rng.randrange(len(lines) + 1), 1)
        if rng.random() < .15:
            lines += ['deep macro', ' deep', ' endm', ' deep']
            bad = True
        t = '\n'.join(lines) + '\n'
        run.clean()
        w = run.work
        with open(os.path.join(w, 't.asm'), 'wb') as f:
            f.write(t.encode('latin-1'))
        name = os.path.join(w, 'code.out')
        fd = -1
        if kind == 'dir':
            os.mkdir(name)
        elif kind == 'linkdir':
            os.mkdir(os.path.join(w, 'd'))
            os.symlink('d', name)
        elif kind == 'fifo':
            os.mkfifo(name)
            fd = os.open(name, os.O_RDONLY | os.O_NONBLOCK)
        elif kind == 'null':
            os.symlink('/dev/null', name)
        else:
            with open(os.path.join(w, 'real'), 'w') as f:
                f.write('old')
            os.symlink('real', name)
        before = os.lstat(name).st_mode
        args = ['-l', '-o', 'code.out', 't.asm']
        r = run.raw(args)
        r.files, r.args = {'t.asm': t}, args
        got = b''
        while fd >= 0:
            b = os.read(fd, 1 << 16)
            if not b:
                os.close(fd)
                break
            got += b
        ctx.add('executions')
        ctx.add('cases')
        ctx.seen('special', (kind, bad))
        ctx.seen('nontrivial', ('special', kind, k))
        ok = r.kind == 'exit' and r.code == 0 and r.o.ok()
        if kind in ('dir', 'linkdir') or bad:
            if ok or not (r.code or r.o.nerr):
                ctx.violation('special:silent', '%s in place of the code file: %s %s' % (kind, r.describe(), r.o.success), r)
                return
        elif not ok:
            ctx.violation('special:refused', '%s in place of the code file: %s' % (kind, r.o.errors[:2] or r.o.fatal or r.describe()), r)
            return
        if kind == 'link':
            if bad and os.path.exists(name):
                ctx.violation('special:left', 'a code file is left behind a symbolic link', r)
                return
            if not bad:
                with open(os.path.join(w, 'real'), 'rb') as f:
                    r.obj = f.read()
                complete(ctx, r, stream, fmt, 'into a symbolic link', 'special')
        elif not os.path.lexists(name) or os.lstat(name).st_mode != before:
            ctx.violation('special:removed', 'the %s in place of the code file was removed' % kind, r)
            return
        elif kind == 'fifo' and not bad:
            r.obj = got
            complete(ctx, r, stream, fmt, 'into a pipe', 'special')


def without(ctx, k):
    """without -o no file is written, whatever the program says; inputs stay as they are"""
    rng = ctx.check.rng('without', k)
    p = gen.program(rng, n=30, faults=rng.choice([0, 0, .05]), undef=False)
    text = p.text()
    extra = rng.choice(['', ' name prog\n', ' title code.out\n', ' output scode\n', ' output hex\n', ' output code\n'])
    fs = {'t.asm': text + extra, 'keep.txt': 'keep'}
    if rng.random() < .4:
        fs['code.out'] = 'old'
        fs['prog'] = 'old2'
    opts = rng.choice([('-l',), (), ('-x',), ('-s',), ('-slx',)])
    r = ctx.run(fs, opts, obj=False)
    ctx.add('cases')
    now = files_after(ctx)
    if now != set(fs):
        ctx.violation('without:files', 'a run without -o changed the set of files: %s' % (now ^ set(fs)), r)
        return
    for n, t in fs.items():
        with open(os.path.join(ctx.runner().work, n), 'rb') as f:
            if f.read() != t.encode('latin-1'):
                ctx.violation('without:content', 'a run without -o changed %s' % n, r)
                return
    ctx.seen('nontrivial', ('without', k))
    # with -o: exactly one more file, its name taken literally
    name = rng.choice(['out', 'out.hex', 'sub/out', '-dash', 'with blank', 'x.asm', '.hidden'])
    if name == '-dash' or p.errors():
        return
    run = ctx.runner()
    os.makedirs(os.path.join(run.work, 'sub'), exist_ok=True)
    with open(os.path.join(run.work, 't.asm'), 'wb') as f:
        f.write(text.encode('latin-1'))
    r = run.raw(list(opts) + ['-o', name, 't.asm'])
    r.files, r.args = {'t.asm': text}, list(opts) + ['-o', name, 't.asm']
    ctx.add('executions')
    ctx.add('cases')
    if files_after(ctx) != set(fs) | {name}:
        ctx.violation('with:files', 'files: %s' % (files_after(ctx) ^ set(fs)), r)
        return
    with open(os.path.join(run.work, name), 'rb') as f:
        r.obj = f.read()
    complete(ctx, r, p.stream(), p.fmt, 'into %r' % name, 'with')


def order(ctx, k):
    """runs one after another into the same file: each leaves its own state only"""
    rng = ctx.check.rng('hist', k)
    run = ctx.runner()
    run.clean()
    hist = []
    for i in range(ctx.check.pick(8, 30)):
        text, stream, fmt = program(rng)
        kind = rng.choice(['ok', 'ok', 'err', 'fatal', 'full', 'none'])
        t = text
        if kind == 'err':
            lines = text.split('\n')[:-1]
            at = rng.randrange(len(lines) + 1)
            t = '\n'.join(lines[:at] + [' frobnicate'] + lines[at:]) + '\n'
        elif kind == 'fatal':
            t = text + 'deep macro\n deep\n endm\n deep\n'
        before = None
        p = os.path.join(run.work, 'code.out')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                before = f.read()
        n = rng.randrange(11) if kind == 'full' else -1     # a program without code has 11 bytes
        r = run.run(t, ('-l',), kind != 'none', fsize=n, keep=True)
        ctx.add('executions')
        ctx.add('cases')
        hist.append(kind)
        ctx.seen('histories', tuple(hist[-3:]))
        if kind == 'none':
            if r.obj != before:
                ctx.violation('hist:none', 'a run without -o touched the code file of an earlier one', r)
                return
        elif kind == 'ok':
            if not complete(ctx, r, stream, fmt, 'history %s' % hist, 'hist'):
                return
        elif not gone(ctx, r, 'history %s' % hist, 'hist', before):
            return


def counted(ctx, n):
    """any number of errors counts"""
    rng = ctx.check.rng('count', n)
    kinds = [' frob', ' db', 'x y z', ' lda 5', ' if', ' db 1+', ' fail']
    ls = [' db 1'] * rng.randrange(1, 4) + [rng.choice(kinds) for _ in range(n)]
    rng.shuffle(ls)
    ls = ['* = 5', ' db 7'] + ls + [' db 8']
    ls = [l if l != ' if' else ' endc' for l in ls]
    stale = rng.choice(STALE)
    fs = {'t.asm': '\n'.join(ls) + '\n'}
    if stale is not None:
        fs['code.out'] = stale
    r = ctx.run(fs, rng.choice([('-l',), ('-l', '-s'), ('-lx',)]))
    ctx.add('cases')
    if r.kind != 'exit' or r.code or r.o.success or not r.o.nocode or r.o.nerr != n:
        ctx.violation('count:verdict', '%d errors: %s, %s errors reported' % (n, r.describe(), r.o.nerr), r)
        return
    gone(ctx, r, '%d errors' % n, 'count', stale)
    ctx.seen('nontrivial', ('count', n))


def go():
    c = Check('C05')
    c.parallel(errors, range(c.pick(180, 3000)))
    c.parallel(everyline, range(c.pick(300, 5000)))
    c.parallel(fatals, range(c.pick(90, 1000)))
    c.parallel(writes, range(c.pick(210, 3000)))
    c.parallel(opens, range(c.pick(40, 400)))
    c.parallel(special, range(c.pick(150, 2000)))
    c.parallel(without, range(c.pick(1200, 20000)))
    c.parallel(counted, sorted(set(range(1, c.pick(300, 3000))) | {(1 << i) + j for i in range(8, c.pick(17, 19)) for j in (-1, 0, 1)} |
                               {10 ** i + j for i in range(3, 6) for j in (-1, 0)}), chunk=4)
    c.parallel(order, range(c.pick(300, 3000)))
    c.finish('every kind of error at random places and at every line, fatal errors, a write failure at every byte of the '
             'code file, unopenable files, runs without -o, histories of runs into one file', level='fault_enumeration',
             need=1000)


main(go)
