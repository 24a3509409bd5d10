#!/usr/bin/env python3
"""C23: the result depends on nothing but the input.

N-variant execution: the same program runs in builds of different compilers and
optimisation levels, with different bytes in fresh heap, stack and local variables, and
in real processes with other environments, limits, working directories, spellings of the
path, standard streams and old output files.  Monitor: standard output, messages, exit
status and object file are the same byte for byte, and the directory holds the sources,
unchanged, and the object file, and nothing else.
"""
import os
import resource
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import Check, main, build, scratch, ENV, LIB, HarnessError  # noqa: E402
import hostile  # noqa: E402

VARIANTS = ['plain', 'plain+55', 'plain+ff', 'fortify+01', 'clang2+aa', 'gcc0+7f']


def snapshot(d):
    res = {}
    for root, dirs, names in os.walk(d):
        for n in names + [x for x in dirs if os.path.islink(os.path.join(root, x))]:
            p = os.path.join(root, n)
            st = os.lstat(p)
            if os.path.islink(p):
                res[os.path.relpath(p, d)] = ('link', os.readlink(p))
            elif n != 'code.out':
                with open(p, 'rb') as f:
                    res[os.path.relpath(p, d)] = (f.read(), st.st_mtime_ns, st.st_mode)
    return res


def what(a, b):
    for n in ('kind', 'code', 'out', 'err', 'obj'):
        x, y = getattr(a, n), getattr(b, n)
        if x != y:
            if isinstance(x, bytes) and isinstance(y, bytes):
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                j = x.rfind(b'\n', 0, i) + 1
                return {'out': 'listing', 'err': 'messages', 'obj': 'object file'}[n], '%r against %r' % (x[j:i + 60], y[j:i + 60])
            return n, '%r against %r' % (x if not isinstance(x, bytes) else 'a file', y if not isinstance(y, bytes) else 'a file')
    return None


def nvariant(ctx, k):
    rng = ctx.check.rng('n', k)
    kind, files, opts, obj = hostile.case(rng, rng.choice([None, None, 'valid', 'respelled']))
    ref = None
    for v in VARIANTS:
        rn = ctx.runner(v)
        r = rn.run(files, opts, obj)
        ctx.add('executions')
        if r.kind in ('timeout', 'toobig', 'hang'):
            ctx.inconclusive += 1
            return
        if ref is None:
            ref = r
            if set(os.listdir(rn.work)) - {'code.out'} != {n.split('/')[0] for n in files}:
                ctx.violation('files', 'the directory holds %s' % os.listdir(rn.work), r)
            for n, t in files.items():
                with open(os.path.join(rn.work, n), 'rb') as f:
                    if f.read() != t:
                        ctx.violation('source', 'the source %s was changed' % n, r)
            continue
        d = what(ref, r)
        if d:
            ctx.violation('variant:%s' % d[0], '%s in the build %s: %s' % (d[0], v, d[1]), r, extra='variants plain and %s' % v)
            return
    ctx.add('object files', ref.obj is not None)
    ctx.add('cases')
    ctx.add('kind ' + kind)
    ctx.seen('nontrivial', hash(str((sorted(files.items()), opts))))
    if k < 40:
        ctx.sample('%s %s: the same in %d builds, %d bytes' % (kind, opts, len(VARIANTS), len(ref.out)))


class R:
    def __init__(self):
        self.kind, self.code, self.out, self.err, self.obj = 'exit', 0, b'', b'', None
        self.files, self.args = {}, []

    def describe(self):
        return '%s %s' % (self.kind, self.code)


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('latin-1'))


def execute(files, args, cwd, exe, env, pre=None, stdin=subprocess.DEVNULL, tofile=None):
    r = R()
    r.files, r.args = files, args
    out = open(tofile, 'wb') if tofile else subprocess.PIPE
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=env, stdin=stdin, stdout=out, stderr=subprocess.PIPE, preexec_fn=pre, timeout=100)
    except subprocess.TimeoutExpired:
        r.kind = 'timeout'
        return r
    finally:
        if tofile:
            out.close()
    r.kind, r.code = ('exit', p.returncode) if p.returncode >= 0 else ('signal', -p.returncode)
    if tofile:
        with open(tofile, 'rb') as f:
            r.out = f.read()
    else:
        r.out = p.stdout
    r.err = p.stderr
    return r


def process(ctx, k):
    """real processes in other surroundings"""
    rng = ctx.check.rng('p', k)
    kind, files, opts, _ = hostile.case(rng, rng.choice([None, None, 'valid', 'respelled']))
    files = {n: bytes(t) for n, t in files.items()}
    exe = os.path.join(build('plain'), 'crasm')
    base = tempfile.mkdtemp(prefix='p.', dir=scratch())
    try:
        ref = None
        ways = ['same'] + rng.sample(WAYS, ctx.check.pick(6, 12))
        for i, way in enumerate(ways):
            d = os.path.join(base, 'w%d' % i)
            os.mkdir(d)
            r = surrounded(rng, d, files, list(opts), exe, way)
            ctx.add('executions')
            ctx.add('way ' + way)
            if r.kind == 'timeout':
                ctx.inconclusive += 1
                return
            if ref is None:
                ref = r
                continue
            bad = r.bad or what(ref, r)
            if bad:
                ctx.violation('process:%s:%s' % (way, bad[0]), '%s: %s: %s' % (way, bad[0], bad[1]), r)
                return
        ctx.add('cases')
        ctx.seen('nontrivial', hash(str((sorted(files.items()), opts, ways))))
    finally:
        shutil.rmtree(base, ignore_errors=True)


# what other assemblers and pagers look at
NAMES = ['CRASM', 'CRASMFLAGS', 'CRASM_FLAGS', 'CRASMOPTS', 'CRASM_OPTIONS', 'CRASMOPTIONS', 'CRASMOPT', 'CRASMINC', 'CRASM_INCLUDE', 'CRASMPATH', 'CRASM_PATH', 'ASMFLAGS', 'ASFLAGS',
         'INCLUDE', 'INCPATH', 'INCDIR', 'CPATH', 'COLUMNS', 'LINES', 'PAGER', 'CRASM_PAGE', 'CRASM_LIST', 'CRASMCPU', 'CRASM_CPU', 'CPU', 'CRASM_OUTPUT', 'NO_COLOR', 'DEBUG', 'VERBOSE',
         'CRASM_DEBUG', 'TMPDIR', 'PWD', 'USER', 'SOURCE_DATE_EPOCH', 'TITLE', 'CRASM_TITLE', 'CRASM_WIDTH', 'CRASM_COLUMNS', 'CRASM_LINES', 'CRASM_WARN', 'CRASM_STRICT']


def preload():
    """the library of lib/surround.c"""
    so = os.path.join(scratch(), 'surround.so')
    if not os.path.exists(so):
        r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-fno-builtin', '-o', so, os.path.join(LIB, 'surround.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError('surround.c: %s' % r.stdout.decode('latin-1'))
    return so


WAYS = ['again', 'other answers', 'empty environment', 'big environment', 'locale', 'perturbed heap', 'absolute path', 'dotted path', 'link', 'long path', 'other name', 'standard input',
        'listing to a file', 'old output', 'long old output', 'old output of another program', 'output is a link', 'output has a second name', 'small stack', 'read only sources',
        'option order', 'variables', 'after another program', 'output elsewhere', 'options apart']


def surrounded(rng, d, files, opts, exe, way):
    env = dict(ENV, PATH='/usr/bin')
    put(d, files)
    args = opts + ['-o', 'code.out', 't.asm']
    pre = stdin = tofile = None
    cwd = d
    out = os.path.join(d, 'code.out')
    extra = {}
    if way == 'empty environment':
        env = {}
    elif way == 'big environment':
        env.update({'X%d' % i: 'y' * rng.randrange(3000) for i in range(rng.randrange(1, 40))})
    elif way == 'locale':
        env = dict(LC_ALL=rng.choice(['C.UTF-8', 'en_US.UTF-8', 'de_DE', 'tr_TR.UTF-8', 'xx']), LANG='fr_FR', TZ='Asia/Tokyo', COLUMNS='20', LINES='5', TERM='dumb', HOME='/', POSIXLY_CORRECT='1')
    elif way == 'other answers':
        env['LD_PRELOAD'] = preload()
        env['VERIF_SURROUND'] = str(rng.randrange(1, 1 << 30))
    elif way == 'variables':
        for n in NAMES:
            env[n] = rng.choice(['1', '0', '50', '33', '100', '-l', '-s', '-x', '6502', 'on', '.', '/tmp', ''])
    elif way == 'perturbed heap':
        env['MALLOC_PERTURB_'] = str(rng.randrange(1, 256))
        env['MALLOC_ARENA_MAX'] = '1'
        env['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0:glibc.malloc.top_pad=%d' % rng.choice([0, 1 << 20])
    elif way == 'absolute path':
        args[-1] = os.path.join(d, 't.asm')
    elif way == 'dotted path':
        args[-1] = rng.choice(['./t.asm', './/./t.asm', '../%s/t.asm' % os.path.basename(d)])
    elif way == 'link':
        os.symlink('t.asm', os.path.join(d, 'alias'))
        args[-1] = 'alias'
    elif way == 'long path':
        deep = os.path.join(d, *['d' * 200] * 8)
        os.makedirs(deep)
        shutil.copy(os.path.join(d, 't.asm'), deep)
        args[-1] = os.path.join(os.path.relpath(deep, d), 't.asm')
    elif way == 'other name':
        n = rng.choice(['x', 'a b c', 't.s', '%s%n', 'page', 'n' * 250, '\xe4\xf6', 't'])
        shutil.copy(os.path.join(d, 't.asm'), os.path.join(d, n))
        args[-1] = n
    elif way == 'standard input':
        stdin = open(os.path.join(d, 't.asm'), 'rb')
    elif way == 'listing to a file':
        tofile = os.path.join(os.path.dirname(d), 'listing')
    elif way in ('old output', 'long old output', 'old output of another program'):
        with open(out, 'wb') as f:
            f.write({'old output': b'x', 'long old output': b'S1' * 100000, 'old output of another program': b'S1130000000102030405060708090A0B0C0D0E0F74\nS9030000FC\n'}[way])
    elif way == 'output is a link':
        os.mkdir(os.path.join(d, 'real'))
        os.symlink('real/code', out)
    elif way == 'output has a second name':
        with open(out, 'wb') as f:
            f.write(b'old contents\n' * 100)
        os.link(out, os.path.join(d, 'second'))
    elif way == 'small stack':
        def pre():
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))
    elif way == 'read only sources':
        for n in files:
            os.chmod(os.path.join(d, n), 0o444)
    elif way == 'option order':
        tail = ['-o', 'code.out']
        args = rng.choice([['t.asm'] + opts + tail, tail + opts + ['t.asm'], opts + ['t.asm'] + tail, tail + ['t.asm'] + opts])
    elif way == 'options apart':
        args = [('-' + c) for o in opts for c in o[1:]] + ['-o', 'code.out', 't.asm']
    elif way == 'after another program':
        extra['before.asm'] = b'* = 5\n nam another\n page 33,111\nm macro\n db 1\n endm\n m\n mlist on\n'
        put(d, extra)
        execute({}, ['-o', 'code.out', 'before.asm'], d, exe, env)
    elif way == 'output elsewhere':
        os.mkdir(os.path.join(d, 'there'))
        args[args.index('code.out')] = 'there/code.out'
        out = os.path.join(d, 'there', 'code.out')
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p) and n != 'code.out':
            os.utime(p, (1e9, 1e9))
    before = snapshot(d)
    r = execute(files, args, cwd, exe, env, pre, stdin or subprocess.DEVNULL, tofile)
    after = snapshot(d)
    if stdin:
        stdin.close()
    if way == 'again':
        r = execute(files, args, cwd, exe, env)
        after = snapshot(d)
    try:
        with open(out, 'rb') as f:
            r.obj = f.read()
    except FileNotFoundError:
        pass
    r.bad = None
    if way == 'output is a link':
        before.pop('code.out', None)
        after.pop('code.out', None)
        after.pop('real/code', None)
    elif way == 'output has a second name':
        before.pop('second')
        after.pop('second')
    if before != after:
        n = next(x for x in sorted(set(before) | set(after)) if before.get(x) != after.get(x))
        r.bad = ('other files', '%s was %s' % (n, 'created' if n not in before else 'removed' if n not in after else 'changed'))
    return r


def go():
    c = Check('C23')
    c.parallel(nvariant, range(c.pick(15000, 150000)), variants=VARIANTS)
    preload()
    c.parallel(process, range(c.pick(1800, 15000)))
    c.finish('an input whose results agree in all builds or surroundings, counted by its files and options', need=5000)


main(go)
