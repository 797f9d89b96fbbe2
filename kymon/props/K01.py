"""Cache directory helper."""
import os
from .. import gen

TECHNIQUE = 'model-based trace monitoring of random operation histories in scratch directories; concurrent calls under controlled line-level thread schedules and from racing processes, with injected delays in the file-system calls; a fence stops writes outside the scratch directory'
NOTE = 'Sampled names, environments, histories and schedules on one local file system. No proof.'
RULE = 'seeded random histories (environment, base, name, create, removals, files) and seeded schedules; non-trivial = a directory was created'
ASSUMPTIONS = ['directories are not removed while a call runs', 'POSIX paths given as strings']
REQUIRED = {'op': 5000, 'created': 1500, 'refused': 500, 'concurrent_call': 1500, 'process_call': 60}


def cases(tier, seed):
    rng = gen.rng_for('K01', tier, seed)
    n = 250 if tier == 'quick' else 10 ** 9
    for i in range(n):
        yield dict(kind='history', mode='history', seed=int(rng.integers(1 << 30)), aff='np')
        for _ in range(2):
            yield dict(kind='threads', mode='threads', seed=int(rng.integers(1 << 30)), aff='np', threads=int(rng.integers(2, 6)), policy=gen.pick(rng, ['random', 'pct', 'round']),
                       p=float(gen.pick(rng, [.05, .2, .5])))
        if i % 2 == 0:
            yield dict(kind='free', mode='free', seed=int(rng.integers(1 << 30)), aff='np', threads=int(rng.integers(4, 17)))
        if i % 10 == 0:
            yield dict(kind='processes', mode='processes', seed=int(rng.integers(1 << 30)), aff='np', n=int(rng.integers(3, 7)))


_fence = {'root': None, 'delay': None, 'escapes': []}
_installed = [False]


def _hook(event, args):
    root = _fence['root']
    if root is None:
        return
    if event in ('os.mkdir', 'os.rmdir', 'os.remove', 'os.rename', 'os.symlink', 'os.link', 'shutil.rmtree', 'os.chmod'):
        for p in args[:2] if event in ('os.rename', 'os.symlink', 'os.link') else args[:1]:
            if isinstance(p, (str, bytes)):
                q = os.path.abspath(os.fsdecode(p))
                if q != root and not q.startswith(root + os.sep):
                    _fence['escapes'].append('%s %s' % (event, q))
                    raise PermissionError('outside the scratch directory: %s' % q)
        if event == 'os.mkdir' and _fence['delay']:
            _fence['delay']()


class World:
    """A scratch directory with its own HOME and environment."""

    def __enter__(self):
        import sys
        import tempfile
        if not _installed[0]:
            sys.addaudithook(_hook)
            _installed[0] = True
        base = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'evidence', 'scratch')
        os.makedirs(base, exist_ok=True)
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='k01-', dir=base))
        self.env = {k: os.environ.get(k) for k in ('HOME', 'KYMATIO_CACHE')}
        self.cwd = os.getcwd()
        os.environ['HOME'] = os.path.join(self.root, 'home')
        os.environ.pop('KYMATIO_CACHE', None)
        os.makedirs(os.path.join(self.root, 'home'))
        os.makedirs(os.path.join(self.root, 'cwd'))
        os.chdir(os.path.join(self.root, 'cwd'))
        _fence.update(root=self.root, delay=None, escapes=[])
        return self

    def __exit__(self, *exc):
        import shutil
        _fence.update(root=None, delay=None)
        os.chdir(self.cwd)
        for k, v in self.env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(self.root, ignore_errors=True)


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.join(d, n)] = 'dir'
        for n in fs:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[p] = (f.read(), os.stat(p).st_mode, os.stat(p).st_mtime_ns)
    return out


NAMES = ['', 'mnist', 'fsdd', 'a', 'a/b', 'a/b/c/d', 'with space', 'd\u00e9j\u00e0', '.hidden', 'UPPER', 'x' * 60, 'a/../b', './c', 'tilde~', '$HOME', '%s', 'dots...', 'new\nline', 'kymatio_cache']


def args_of(rng, w):
    """(base argument or None, environment value or None, name)."""
    bases = [None, None, os.path.join(w.root, 'b%d' % rng.integers(3)), os.path.join(w.root, 'deep', 'er', 'b%d' % rng.integers(2)), 'rel%d' % rng.integers(2), w.root, os.path.join(w.root, 'slash') + '/', '.']
    envs = [None, os.path.join(w.root, 'env%d' % rng.integers(2)), os.path.join(w.root, 'e', 'n', 'v'), 'relenv', w.root + '/sl/']
    return gen.pick(rng, bases), gen.pick(rng, envs), gen.pick(rng, NAMES) if rng.random() < .9 else os.path.join(w.root, 'abs%d' % rng.integers(2), 'name')


def expect(w, base, env, name):
    b = base if base is not None else env if env is not None else w.root + '/home/kymatio_cache'
    # joined as a path
    if name.startswith('/'):
        return b, name
    return b, (b if b.endswith('/') else b + '/') + name


def run_case(case, mon):
    rng = gen.rng_for('k', case['seed'])
    with World() as w:
        globals()['run_' + case['mode']](case, mon, rng, w)
        mon.check(not _fence['escapes'], 'escape', lambda: 'outside the cache directory: %s' % _fence['escapes'][:3])


def run_history(case, mon, rng, w):
    import shutil
    from kymatio.caching import get_cache_dir, find_cache_base_dir
    for step in range(25):
        base, env, name = args_of(rng, w)
        os.environ.pop('KYMATIO_CACHE', None)
        if env is not None:
            os.environ['KYMATIO_CACHE'] = env
        b, path = expect(w, base, env, name)
        mon.event('op')
        mon.state('call', [base is None, env, name])
        got = find_cache_base_dir(base) if rng.random() < .5 else find_cache_base_dir(cache_base_dir=base)
        mon.check(isinstance(got, str) and got == b, 'base', lambda: 'find_cache_base_dir(%r) with KYMATIO_CACHE=%r is %r, expected %r' % (base, env, got, b))
        create = bool(rng.random() < .6)
        before = tree(w.root)
        there = os.path.isdir(path)
        default = create and rng.random() < .4
        what = 'get_cache_dir(%r, %r%s) with KYMATIO_CACHE=%r' % (name, base, '' if default else ', %s' % create, env)
        try:
            s = rng.integers(3)
            if default:
                got = get_cache_dir(name, base) if s else get_cache_dir(name=name, cache_base_dir=base)
            else:
                got = get_cache_dir(name, base, create) if s else get_cache_dir(name=name, create=create, cache_base_dir=base)
        except ValueError as e:
            mon.event('refused')
            mon.check(not create and not there, 'refused', '%s refused: %s' % (what, e))
            mon.check(tree(w.root) == before, 'refused:created', '%s refused but changed the directory tree' % what)
            continue
        mon.check(create or there, 'missing', lambda: '%s returned %r for a missing directory' % (what, got))
        mon.check(isinstance(got, str) and got == path, 'path', lambda: '%s returned %r, expected %r' % (what, got, path))
        mon.check(os.path.isdir(path), 'directory', '%s returned without the directory existing' % what)
        after = tree(w.root)
        if there:
            mon.event('existing')
            mon.check(after == before, 'touched', '%s changed the tree although the directory existed' % what)
        else:
            mon.event('created')
            mon.nontrivial = True
            new = set(after) - set(before)
            real = os.path.realpath(path)
            mon.check(all(before[p] == after.get(p) for p in before), 'touched', '%s changed existing contents' % what)
            # only the directory and its parents ('a/../b' also makes a)
            ok = set()
            for q in (os.path.abspath(path), real, os.path.join(os.path.realpath(b), 'a')):
                while q.startswith(w.root) and q != w.root:
                    ok.add(q)
                    q = os.path.dirname(q)
            mon.check(new <= ok and all(after[p] == 'dir' for p in new), 'extra', lambda: '%s also created %s' % (what, sorted(new - ok)))
            mon.check(os.access(path, os.R_OK | os.W_OK | os.X_OK) and os.stat(path).st_mode & 0o700 == 0o700, 'mode', '%s created a directory of mode %o' % (what, os.stat(path).st_mode))
        r = rng.random()
        if r < .4:
            with open(os.path.join(path, 'data%d.bin' % rng.integers(3)), 'wb') as f:
                f.write(rng.bytes(20))
        elif r < .5 and path != w.root and os.path.realpath(path) not in (w.root, os.path.join(w.root, 'cwd'), os.path.join(w.root, 'home')):
            shutil.rmtree(path)
        elif r < .55:
            # a regular file in the way is never passed off as a directory
            p = os.path.join(w.root, 'plain%d' % step)
            with open(p, 'w') as f:
                f.write('x')
            for create in (True, False):
                mon.event('file_in_the_way')
                try:
                    got = get_cache_dir(os.path.basename(p), w.root, create)
                except (ValueError, OSError):
                    pass
                else:
                    mon.violate('file', 'a regular file was returned as the cache directory: %r' % got)
            mon.check(open(p).read() == 'x', 'file', 'the file was changed')
    mon.sample = {'created': mon.events['created'], 'refused': mon.events['refused']}


def scenario(rng, w, n):
    base = os.path.join(w.root, 'c', 'base')
    if rng.random() < .3:
        os.makedirs(base)
    shared = gen.pick(rng, ['x', 'p/q/r', '', 'mnist'])
    names = [shared if rng.random() < .7 else gen.pick(rng, ['p', 'p/q', 'p/q/r/s', 'x/y', 'z']) for _ in range(n)]
    return base, names


def finish(mon, rng, w, base, names, results, before):
    for nm, (st, v) in zip(names, results):
        mon.event('concurrent_call')
        want = os.path.join(base, nm)
        if mon.check(st == 'ok', 'concurrent:error', lambda: 'get_cache_dir(%r) racing with %s: %s' % (nm, names, v)):
            mon.check(v == want, 'concurrent:path', lambda: 'returned %r, expected %r' % (v, want))
            mon.check(os.path.isdir(want), 'concurrent:directory', '%r does not exist after a concurrent call' % want)
    after = tree(w.root)
    mon.check(all(after.get(p) == v for p, v in before.items()), 'concurrent:touched', 'existing contents changed')
    mon.nontrivial = True
    if os.path.isdir(base):
        mon.event('created')


def run_threads(case, mon, rng, w):
    from kymatio.caching import get_cache_dir
    from .. import sched
    n = case['threads']
    base, names = scenario(rng, w, n)
    before = tree(w.root)
    out = [None] * n

    def call(i):
        def f():
            try:
                out[i] = ('ok', get_cache_dir(names[i], base))
            except Exception as e:
                out[i] = ('error', '%s: %s' % (type(e).__name__, e))
            return 0
        return f
    prefix = (sched.PREFIX, os.__file__, '<frozen os>', '<frozen genericpath>') if case['seed'] % 4 else sched.PREFIX
    s = sched.Scheduler([call(i) for i in range(n)], rng, policy=case['policy'], p=case['p'], prefix=prefix, limit=30)
    s.run()
    mon.event('schedule_points', s.points)
    mon.event('switches', len(s.switches))
    mon.state('schedule', s.switches)
    finish(mon, rng, w, base, names, [o or ('error', 'no answer') for o in out], before)
    mon.sample = {'threads': n, 'points': s.points, 'switches': len(s.switches)}


def run_free(case, mon, rng, w):
    """Free-running threads; every directory creation is delayed by a random time."""
    import random
    import threading
    import time
    from kymatio.caching import get_cache_dir
    n = case['threads']
    base, names = scenario(rng, w, n)
    before = tree(w.root)
    out = [None] * n
    bar = threading.Barrier(n)
    rnd = random.Random(case['seed'])
    _fence['delay'] = lambda: time.sleep(rnd.random() * .004)

    def f(i):
        bar.wait()
        try:
            out[i] = ('ok', get_cache_dir(names[i], base))
        except Exception as e:
            out[i] = ('error', '%s: %s' % (type(e).__name__, e))
    ts = [threading.Thread(target=f, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    _fence['delay'] = None
    finish(mon, rng, w, base, names, [o or ('error', 'no answer') for o in out], before)
    mon.sample = {'threads': n}


CHILD = '''
import sys, time, os
sys.path.insert(0, %r)
from kymatio.caching import get_cache_dir
import random
root = %r
rnd = random.Random(int(sys.argv[3]))
def hook(event, args):
    if event == 'os.mkdir':
        q = os.path.abspath(os.fsdecode(args[0]))
        if not q.startswith(root):
            raise PermissionError(q)
        time.sleep(rnd.random() * .003)
sys.addaudithook(hook)
print('ready', flush=True)
sys.stdin.readline()
for k in range(6):
    for name in (sys.argv[2], 'deep/' + sys.argv[2], str(k)):
        print(get_cache_dir(str(k) + '/' + name, sys.argv[1]), flush=True)
'''


def run_processes(case, mon, rng, w):
    import subprocess
    import sys
    from .. import core
    base, names = scenario(rng, w, case['n'])
    names = [nm or 'e' for nm in names]
    before = tree(w.root)
    ps = [subprocess.Popen([sys.executable, '-c', CHILD % (core.REPO, w.root), base, nm, str(i)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
          for i, nm in enumerate(names)]
    for p in ps:
        p.stdout.readline()
    for p in ps:
        p.stdin.write('go\n')
        p.stdin.flush()
    for p, nm in zip(ps, names):
        out, err = p.communicate(timeout=120)
        mon.event('process_call', 18)
        if mon.check(p.returncode == 0, 'processes:error', lambda: 'process racing on %r failed: %s' % (nm, err[-300:])):
            for path in out.split('\n'):
                if path:
                    mon.check(path.startswith(base) and os.path.isdir(path), 'processes:directory', lambda: '%r returned but missing' % path)
    after = tree(w.root)
    mon.check(all(after.get(p) == v for p, v in before.items()), 'processes:touched', 'existing contents changed')
    mon.nontrivial = True
    mon.sample = {'processes': case['n']}
