"""Shared machinery: builds, the fork-server runner, worker processes, verdicts."""
import atexit
import fcntl
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')

sys.path.insert(0, LIB)
import listing  # noqa: E402
import objfile  # noqa: E402


class HarnessError(Exception):
    pass


_scratch = None
_owner = os.getpid()


def scratch():
    """a directory of this process, removed when it ends"""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        try:
            _scratch = tempfile.mkdtemp(prefix='crasmv.', dir=base)
        except OSError:
            _scratch = tempfile.mkdtemp(prefix='crasmv.')
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if os.getpid() == _owner and _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


VARIANTS = {
    'plain': ('gcc', '-O1 -g -w'),
    'asan': ('gcc', '-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined '
                    '-fno-sanitize-recover=all -fno-common'),
    'msan': ('clang', '-O1 -g -w -fno-omit-frame-pointer -fsanitize=memory '
                      '-fsanitize-memory-track-origins=2 -fno-sanitize-recover=all'),
    'casan': ('clang', '-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined,local-bounds '
                       '-fno-sanitize-recover=all -fno-common'),
    # subobject bounds of string functions, stack canaries, 0xfe in every local variable
    'fortify': ('gcc', '-O2 -g -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3 -fstack-protector-all -ftrivial-auto-var-init=pattern'),
    'clang2': ('clang', '-O2 -g -w -ftrivial-auto-var-init=pattern'),
    'gcc0': ('gcc', '-O0 -g -w'),
    'gcov': ('gcc', '-O0 -g -w --coverage -fprofile-update=atomic'),
}

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77:halt_on_error=1',
    'MSAN_OPTIONS': 'exitcode=77:halt_on_error=1',
    'LC_ALL': 'C',
}


def build(variant):
    """build /repo's working tree in scratch; returns the directory, which holds
    'crasm' (the program itself) and 'runner' (the fork server around it)"""
    d = os.path.join(scratch(), 'build-' + variant)
    if os.path.isdir(d):
        return d
    os.mkdir(d)
    for f in os.listdir(os.path.join(REPO, 'src')):
        if f.endswith('.o') or f == 'crasm':
            continue
        p = os.path.join(REPO, 'src', f)
        if os.path.isfile(p):
            shutil.copy(p, d)
        elif os.path.isdir(p):
            shutil.copytree(p, os.path.join(d, f))
    cc, cflags = VARIANTS[variant]
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL', 'CFLAGS', 'LDFLAGS')}
    env.update(ENV)

    def sh(cmd):
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), r.stdout.decode('latin-1')[-3000:]))
    sh(['make', '-j8', 'CC=' + cc, 'CFLAGS=' + cflags, 'all'])
    objs = []
    found = 0
    for root, _, names in os.walk(d):
        for n in sorted(names):
            if n.endswith('.o'):
                p = os.path.join(root, n)
                sy = subprocess.run(['nm', p], stdout=subprocess.PIPE).stdout.decode('latin-1')
                if any(l.split()[-2:] == ['T', 'main'] for l in sy.splitlines() if l.split()):
                    sh(['objcopy', '--redefine-sym', 'main=crasm_main', p, p + '.renamed'])
                    p += '.renamed'
                    found += 1
                objs.append(p)
    if found != 1:
        raise HarnessError('expected one object with main, found %d' % found)
    shutil.copy(os.path.join(LIB, 'runner.c'), d)
    rc = [cc] + cflags.split()
    sh(rc + ['-D_GNU_SOURCE', '-c', 'runner.c', '-o', 'runner.obj'])
    sh(rc + ['-o', 'runner', 'runner.obj'] + objs + ['-lm'])
    return d


class Res:
    """one run: kind 'exit'/'signal'/'timeout'/'toobig', code, out, err, obj (bytes or None)"""
    __slots__ = ('kind', 'code', 'out', 'err', 'obj', 'args', 'files', '_o')

    @property
    def o(self):
        if self._o is None:
            self._o = listing.Out(self.out)
        return self._o

    def crashed(self):
        return self.kind == 'signal' or (self.kind == 'exit' and self.code not in (0, 10))

    def describe(self):
        return '%s %d' % (self.kind, self.code)


class Runner:
    def __init__(self, variant='plain', cpu=None, wall=120000, maxout=1 << 26):
        # 'plain+5a': fresh heap and stack memory is filled with that byte
        self.variant, _, fill = variant.partition('+')
        self.env = {'MALLOC_PERTURB_': str(int(fill, 16)), 'CRASM_STACKFILL': str(int(fill, 16))} if fill else {}
        self.dir = build(self.variant)
        self.cpu = cpu or (10 if 'san' in self.variant else 5)
        self.wall, self.maxout = wall, maxout
        self.hangs = 0
        self.p = None
        self.work = tempfile.mkdtemp(prefix='w.', dir=scratch())
        self.n = 0

    def start(self):
        env = dict(os.environ)
        env.update(ENV)
        env.update(self.env)
        self.p = subprocess.Popen([os.path.join(self.dir, 'runner')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def raw(self, args, fsize=-1, cpu=None):
        if self.p is None or self.p.poll() is not None:
            self.start()
        f = [self.work, str(cpu or self.cpu), str(self.wall), str(fsize), str(self.maxout)] + list(args)
        self.p.stdin.write(b'\x1f'.join(x.encode('latin-1') if isinstance(x, str) else x for x in f) + b'\n')
        self.p.stdin.flush()
        head = self.p.stdout.readline().split()
        if len(head) != 4:
            raise HarnessError('runner died')
        no, ne = int(head[2]), int(head[3])
        o = self.p.stdout.read(no)
        e = self.p.stdout.read(ne)
        r = Res()
        r.kind, r.code, r.out, r.err = head[0].decode(), int(head[1]), o, e
        r.obj = None
        r._o = None
        self.n += 1
        return r

    def clean(self):
        for n in os.listdir(self.work):
            p = os.path.join(self.work, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def run(self, files, opts=('-l',), obj=True, main='t.asm', fsize=-1, keep=False, args=None):
        """files: text/bytes of the main file, or {name: text}.  obj: ask for -o;
        args: the whole command line"""
        if not isinstance(files, dict):
            files = {main: files}
        if not keep:
            self.clean()
        for n, t in files.items():
            p = os.path.join(self.work, n)
            if '/' in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode('latin-1'))
        args = list(args) if args else list(opts) + (['-o', 'code.out'] if obj else []) + [main]
        r = self.raw(args, fsize)
        if r.kind == 'timeout' or (r.kind == 'signal' and r.code in (signal.SIGXCPU, signal.SIGKILL)):
            # once more, with more time, before it is called a hang
            if not self.hangs:
                r = self.raw(args, fsize, cpu=30)
            if r.kind == 'signal' and r.code in (signal.SIGXCPU, signal.SIGKILL):
                r.kind = 'hang'
                self.hangs += 1
        r.files, r.args = files, args
        try:
            with open(os.path.join(self.work, 'code.out'), 'rb') as f:
                r.obj = f.read()
        except FileNotFoundError:
            r.obj = None
        return r

    def close(self):
        if self.p and self.p.poll() is None:
            self.p.stdin.close()
            self.p.wait()


def known_findings(prop):
    res = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % prop):
            key, _, what = l[len('known: property=%s ' % prop):].partition(' ')
            res[key] = what
    return res


class Ctx:
    """what a worker gets: runners, counters, a place for violations"""

    def __init__(self, check):
        self.check = check
        self.runners = {}
        self.count = {}
        self.sets = {}
        self.viol = []
        self.samples = []
        self.known = set()
        self.inconclusive = 0

    def runner(self, variant='plain'):
        if variant not in self.runners:
            self.runners[variant] = Runner(variant)
        return self.runners[variant]

    def stuck(self):
        """violated already, and costing seconds per run"""
        return self.viol and sum(r.hangs for r in self.runners.values()) >= 3

    def run(self, files, opts=('-l',), obj=True, variant='plain', **k):
        r = self.runner(variant).run(files, opts, obj, **k)
        self.add('executions')
        if r.kind == 'toobig' and self.check.prop not in ('C01', 'C02', 'C23'):
            # no program of these checks has that much to print
            self.runner(variant).hangs += 1
            self.violation('runaway', 'the output never ends (more than 64 MB)', r)
            raise Inconclusive()
        if r.kind in ('timeout', 'toobig'):
            self.inconclusive += 1
            raise Inconclusive()
        return r

    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, key, what, res=None, files=None, extra=''):
        """key identifies the failing input for known_findings.txt"""
        if key in self.check.known:
            self.known.add(key)
            return
        self.viol.append((key, what, files if files is not None else (res.files if res else {}),
                          res.args if res else [], extra,
                          (res.out, res.err, res.obj, res.describe()) if res else None))


class Inconclusive(Exception):
    pass


class Check:
    """
    c = Check('C06', level_rule='...')
    c.parallel(fn, items)      # fn(ctx, item)
    c.finish(...)
    """
    MAXVIOL = int(os.environ.get('VERIF_MAXVIOL', '12'))

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.known = known_findings(prop)
        self.known_seen = set()
        self.count = {}
        self.sets = {}
        self.samples = []
        self.viol = []
        self.inconclusive = 0
        self.jobs = max(1, min(8, os.cpu_count() or 1))

    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def rng(self, *what):
        return random.Random('%s:%d:%s' % (self.prop, self.seed, ':'.join(map(str, what))))

    def parallel(self, fn, items, variants=('plain',), chunk=None):
        """run fn(ctx, item) for every item, in worker processes"""
        items = list(items)
        for v in variants:
            build(v.partition('+')[0])
        if len(self.viol) >= self.MAXVIOL:
            return
        jobs = min(self.jobs, len(items)) or 1
        idx_r, idx_w = os.pipe()
        pids = []
        outs = []
        counter = tempfile.NamedTemporaryFile(dir=scratch())
        counter.write(b'%16d' % 0)
        counter.flush()
        step = chunk or max(1, min(64, len(items) // (jobs * 8)))
        sys.stdout.flush()
        for w in range(jobs):
            path = os.path.join(scratch(), 'res.%d.%d' % (os.getpid(), w))
            outs.append(path)
            pid = os.fork()
            if pid == 0:
                st = 1
                try:
                    self._worker(fn, items, counter.name, step, path)
                    st = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(st)
            pids.append(pid)
        os.close(idx_r)
        os.close(idx_w)
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad += st != 0
        import pickle
        for path in outs:
            if not os.path.exists(path):
                continue
            with open(path, 'rb') as f:
                d = pickle.load(f)
            os.unlink(path)
            for k, v in d['count'].items():
                self.count[k] = self.count.get(k, 0) + v
            for k, v in d['sets'].items():
                self.sets.setdefault(k, set()).update(v)
            self.viol += d['viol']
            self.known_seen |= d['known']
            self.samples += d['samples']
            self.inconclusive += d['inc']
        if bad:
            raise HarnessError('%d workers failed' % bad)

    def _worker(self, fn, items, cname, step, path):
        import pickle
        ctx = Ctx(self)
        cf = open(cname, 'r+b', buffering=0)
        err = None
        while len(ctx.viol) < self.MAXVIOL and not ctx.stuck():
            fcntl.flock(cf, fcntl.LOCK_EX)
            cf.seek(0)
            i = int(cf.read(16))
            cf.seek(0)
            cf.write(b'%16d' % (i + step))
            fcntl.flock(cf, fcntl.LOCK_UN)
            if i >= len(items):
                break
            for it in items[i:i + step]:
                try:
                    fn(ctx, it)
                except Inconclusive:
                    pass
                if len(ctx.viol) >= self.MAXVIOL or ctx.stuck():
                    # enough for everyone
                    fcntl.flock(cf, fcntl.LOCK_EX)
                    cf.seek(0)
                    cf.write(b'%16d' % len(items))
                    fcntl.flock(cf, fcntl.LOCK_UN)
                    break
        for r in ctx.runners.values():
            r.close()
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(dict(count=ctx.count, sets=ctx.sets, viol=ctx.viol, known=ctx.known,
                             samples=ctx.samples, inc=ctx.inconclusive), f)
        os.rename(path + '.tmp', path)

    def finish(self, rule, evaluations='cases', nontrivial='nontrivial', level='exploration',
               need=1, assumptions=None, **cover):
        ev = self.count.get(evaluations, 0)
        nt = self.sets.get(nontrivial)
        nt = len(nt) if nt is not None else self.count.get(nontrivial, 0)
        cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=rule, samples=self.samples[:4])
        cov['observed'] = dict(sorted(self.count.items()))
        cov['distinct'] = {k: len(v) for k, v in sorted(self.sets.items())}
        cov['inconclusive'] = self.inconclusive
        cov['known_findings_seen'] = sorted(self.known_seen)
        cov.update(cover)
        shutil.rmtree(os.path.join(VERIF, 'evidence', 'replay', self.prop), ignore_errors=True)
        lines = []
        uniq = {}
        for v in self.viol:
            uniq.setdefault(v[0], v)
        for i, (key, what, files, args, extra, res) in enumerate(list(uniq.values())[:self.MAXVIOL]):
            d = os.path.join(VERIF, 'evidence', 'replay', self.prop, str(i))
            os.makedirs(d, exist_ok=True)
            for n, t in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(t if isinstance(t, bytes) else t.encode('latin-1'))
            with open(os.path.join(d, 'README.txt'), 'w') as f:
                f.write('property %s, key %s\n%s\n\nreplay here: crasm %s\n(seed %d, tier %s)\n\n%s\n' %
                        (self.prop, key, what, ' '.join(repr(a) for a in args), self.seed, self.tier, extra))
                if res:
                    f.write('\nrun ended: %s\n--- stdout\n%s\n--- stderr\n%s\n--- object\n%s\n' % (
                        res[3], res[0].decode('latin-1')[-20000:], res[1].decode('latin-1')[-8000:],
                        None if res[2] is None else res[2].decode('latin-1')[:20000]))
            print('# %s: %s' % (key, what[:600]))
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, d))
        for k in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, k, self.known[k]))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        wall = time.time() - self.t0
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                           assumptions=assumptions or [], wall_s=round(wall, 2), violations=len(uniq)), f,
                      indent=1, default=str)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, %.1f s' %
              (self.prop, self.tier, self.seed, ev, nt, self.inconclusive, wall))
        if lines:
            print('\n'.join(lines))
            sys.stdout.flush()
            sys.exit(1)
        if ev < need or nt < 1 or self.inconclusive > max(5, ev // 20):
            print('too little was observed (%d evaluations, %d inconclusive): no verdict' % (ev, self.inconclusive))
            sys.exit(2)
        sys.exit(0)


def main(fn):
    """run a check's main function; any harness failure is exit 2, never 0 or 1"""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
