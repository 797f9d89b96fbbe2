"""Ambient modes: interpreter, warnings, error modes, threads, framework modes change no result."""
import contextlib
from .. import gen

TECHNIQUE = 'differential monitor: the same construction and call observed plain and under ambient modes of the interpreter, NumPy, SciPy, PyTorch, TensorFlow, JAX and scikit-learn, and in fresh interpreters started with other flags and environments'
NOTE = 'Sampled parameters, inputs and modes. Modes of which a framework says that they change values (precision settings, flushing of subnormals, number of threads) are compared within rounding. No proof.'
RULE = 'seeded random (frontend, transform, parameters, modes); non-trivial = output not all zero'
ASSUMPTIONS = ['modes which make a framework refuse operations Kymatio relies on (strict promotion, scripting, functorch transforms) are outside the domain', 'bit identity only where the mode selects no other kernels']
REQUIRED = {'called_under': 600, 'built_under': 150, 'process': 10, 'refused_in_process': 40, 'gradient_under': 40}
N = {'numpy': 8, 'torch': 8, 'sklearn': 3, 'tensorflow': 2, 'jax': 1, 'keras': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('P04', tier, seed)
    n = 6 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            if f in ('jax', 'keras', 'tensorflow') and tier == 'quick' and i % 3:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, True, large=False)
                if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                    kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                if f == 'tensorflow' and d == 'jtfs':
                    kw = dict(J=3, shape=48, J_fr=1, Q=int(rng.integers(1, 4)), out_type='list')
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))
        for p in range(3):
            for f in ['numpy', 'sklearn'] + ['torch'] * (p == 0) + ['tensorflow'] * (p == 0 and i % 6 == 0) + ['jax'] * (p == 0 and i % 3 == 1):
                objs = []
                for d in fe.AVAILABLE[f]:
                    for k in range(2 if f != 'jax' else 1):
                        kw = gen.fe_cfg(f, d, rng, True, large=False)
                        if f in ('jax', 'tensorflow') and d in ('1d', 'jtfs'):
                            kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                        objs.append([d, kw])
                yield dict(kind='process:' + f, fe=f, objs=objs, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


# ---- modes: name -> (context manager factory, kind of comparison, when it may be used)

@contextlib.contextmanager
def setting(get, put, value):
    old = get()
    put(value)
    try:
        yield
    finally:
        put(old)


@contextlib.contextmanager
def warned():
    import warnings
    with warnings.catch_warnings():
        for c in (RuntimeWarning, FutureWarning, PendingDeprecationWarning, BytesWarning, SyntaxWarning, ImportWarning):
            warnings.simplefilter('error', c)
        yield


@contextlib.contextmanager
def collected():
    import gc
    old = gc.get_threshold()
    gc.set_threshold(3, 2, 2)
    try:
        yield
    finally:
        gc.set_threshold(*old)


@contextlib.contextmanager
def uncollected():
    import gc
    gc.disable()
    try:
        yield
    finally:
        gc.enable()


@contextlib.contextmanager
def profiled():
    import sys
    seen = [0]

    def f(frame, event, arg):
        seen[0] += 1
    old = sys.getprofile()
    sys.setprofile(f)
    try:
        yield
    finally:
        sys.setprofile(old)


@contextlib.contextmanager
def seeded():
    import random
    import numpy as np
    a, b = random.getstate(), np.random.get_state()
    random.seed(3)
    np.random.seed(5)
    try:
        yield
    finally:
        random.setstate(a)
        np.random.set_state(b)


@contextlib.contextmanager
def both(*cms):
    with contextlib.ExitStack() as s:
        for c in cms:
            s.enter_context(c)
        yield


def common():
    import numpy as np
    import scipy.fft
    import sys
    return {
        'raise': (lambda: np.errstate(over='raise', divide='raise', invalid='raise'), 'bit', 'call build'),
        'ignore': (lambda: np.errstate(all='ignore'), 'bit', 'call build'),
        'warnings_as_errors': (warned, 'bit', 'call build'),
        'gc_often': (collected, 'bit', 'call build'),
        'gc_off': (uncollected, 'bit', 'call build'),
        'profile': (profiled, 'bit', 'call build'),
        'seeds': (seeded, 'bit', 'call build'),
        'workers': (lambda: scipy.fft.set_workers(4), 'close', 'call build'),
        'digits': (lambda: np.printoptions(precision=2, threshold=3), 'bit', 'call build'),
        'switching': (lambda: setting(sys.getswitchinterval, sys.setswitchinterval, 1e-5), 'bit', 'call build'),
    }


def torch_modes():
    import torch
    from torch.overrides import TorchFunctionMode
    from torch.utils._python_dispatch import TorchDispatchMode

    class Functions(TorchFunctionMode):
        def __torch_function__(self, func, types, args=(), kwargs=None):
            return func(*args, **(kwargs or {}))

    class Dispatch(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            return func(*args, **(kwargs or {}))
    g = torch.get_num_threads
    return {
        'no_grad': (torch.no_grad, 'bit', 'call build'),
        'inference': (torch.inference_mode, 'bit', 'call build'),
        'nested_grad': (lambda: both(torch.no_grad(), torch.enable_grad()), 'bit', 'call build grad'),
        'deterministic': (lambda: setting(torch.are_deterministic_algorithms_enabled, torch.use_deterministic_algorithms, True), 'bit', 'call build grad'),
        'anomaly': (lambda: torch.autograd.set_detect_anomaly(True, check_nan=False), 'bit', 'call build grad'),
        'on_cpu': (lambda: torch.device('cpu'), 'bit', 'call build grad'),
        'threads': (lambda: setting(g, torch.set_num_threads, 1 + g()), 'close', 'call build grad'),
        'autocast': (lambda: torch.autocast('cpu', dtype=torch.bfloat16), 'close', 'call build grad'),
        'functions': (Functions, 'bit', 'call build grad'),
        'dispatch': (Dispatch, 'bit', 'call build'),
        'default64': (lambda: setting(torch.get_default_dtype, torch.set_default_dtype, torch.float64), 'bit', 'call grad'),
        'default16': (lambda: setting(torch.get_default_dtype, torch.set_default_dtype, torch.bfloat16), 'bit', 'call grad'),
        'saved': (lambda: torch.autograd.graph.saved_tensors_hooks(lambda t: t.clone(), lambda t: t), 'bit', 'call grad'),
        'disk': (lambda: torch.autograd.graph.save_on_cpu(), 'bit', 'call grad'),
        'mkldnn': (lambda: torch.backends.mkldnn.flags(enabled=False), 'close', 'call build'),
    }


def tf_modes():
    import tensorflow as tf
    import warnings

    @contextlib.contextmanager
    def eager():
        tf.config.run_functions_eagerly(True)
        try:
            yield
        finally:
            tf.config.run_functions_eagerly(False)

    @contextlib.contextmanager
    def numerics():
        tf.debugging.enable_check_numerics()
        try:
            yield
        finally:
            tf.debugging.disable_check_numerics()
    return {
        'eager': (eager, 'bit', 'call build'),
        'numerics': (numerics, 'bit', 'call'),
        'device': (lambda: tf.device('/CPU:0'), 'bit', 'call build'),
        'scope': (lambda: tf.name_scope('a'), 'bit', 'call build'),
        'tape': (lambda: tf.GradientTape(persistent=True), 'bit', 'call build'),
        'stop': (lambda: both(tf.init_scope()), 'bit', 'call build'),
        'soft': (lambda: setting(tf.config.get_soft_device_placement, tf.config.set_soft_device_placement, True), 'bit', 'call build'),
        'eager_numerics': (lambda: both(eager(), numerics()), 'bit', 'call'),
    }


def jax_modes():
    import jax
    return {
        'no_jit': (jax.disable_jit, 'close', 'call build'),
        'nans': (lambda: jax.debug_nans(True), 'close', 'call'),
        'matmul': (lambda: jax.default_matmul_precision('bfloat16'), 'close', 'call build'),
        'device': (lambda: jax.default_device(jax.devices('cpu')[0]), 'bit', 'call build'),
        'leaks': (jax.checking_leaks, 'close', 'call'),
    }


def sklearn_modes():
    import sklearn
    return {
        'finite': (lambda: sklearn.config_context(assume_finite=True, working_memory=1), 'bit', 'call build'),
        'routing': (lambda: sklearn.config_context(enable_metadata_routing=True), 'bit', 'call build'),
        'unvalidated': (lambda: sklearn.config_context(skip_parameter_validation=True, print_changed_only=False), 'bit', 'call build'),
    }


def modes(f):
    m = common()
    m.update({'numpy': dict, 'torch': torch_modes, 'sklearn': sklearn_modes, 'tensorflow': tf_modes, 'keras': tf_modes, 'jax': jax_modes}[f]())
    return m


# ---- ways of calling: where in the program a call happens

def in_thread(fn):
    import threading
    out = []

    def go():
        try:
            out.append((True, fn()))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return result(out)


def in_loop(fn):
    import asyncio

    async def go():
        await asyncio.sleep(0)
        return fn()
    return asyncio.run(go())


def in_executor(fn):
    import asyncio

    async def go():
        return await asyncio.to_thread(fn)
    return asyncio.run(go())


def in_handler(fn):
    try:
        raise KeyError('a')
    except KeyError:
        return fn()


def in_generator(fn):
    def go():
        yield fn()
    return next(go())


def in_depth(fn):
    def go(n):
        return fn() if n == 0 else go(n - 1)
    return go(400)


def in_finalizer(fn):
    out = []

    class A:
        def __del__(self):
            try:
                out.append((True, fn()))
            except BaseException as e:
                out.append((False, e))
    A()
    return result(out)


def result(out):
    if out[0][0]:
        return out[0][1]
    raise out[0][1]


PLACES = {'thread': in_thread, 'loop': in_loop, 'executor': in_executor, 'handler': in_handler, 'generator': in_generator, 'depth': in_depth, 'finalizer': in_finalizer}


# compilers nobody promised support for: what they return is judged, that they refuse is not
OPTIONAL = ('trace', 'compile', 'xla')


def compiled(f, d, S, x, rng):
    """Other ways a framework runs the same object: [(name, kind, function)]."""
    out = []
    if f == 'torch':
        import torch
        from torch.utils.checkpoint import checkpoint
        t = torch.from_numpy(x)

        def traced():
            return torch.jit.trace(S, torch.randn_like(t), check_trace=False)(t)
        out.append(('checkpoint', 'bit', lambda: checkpoint(S, t, use_reentrant=False)))
        array = getattr(S, 'out_type', 'array') == 'array'
        if array:
            out.append(('trace', 'close', traced))
        if gen.chance(rng, .1) and x.size < 600:
            def dynamo():
                torch._dynamo.reset()
                return torch.compile(S, backend='eager')(t)
            out.append(('compile', 'close', dynamo))
    elif f == 'tensorflow':
        import tensorflow as tf
        n = x.shape[0]

        def dataset():
            y = list(tf.data.Dataset.from_tensor_slices(x).map(S).as_numpy_iterator())
            if isinstance(y[0], list):
                return [dict(p, coef=tf.stack([v[i]['coef'] for v in y])) for i, p in enumerate(y[0])]
            return tf.stack(y)
        if getattr(S, 'out_type', 'array') == 'array':
            out.append(('dataset', 'close', dataset))
            out.append(('map_fn', 'close', lambda: tf.map_fn(S, tf.constant(x))))
            out.append(('xla', 'close', lambda: tf.function(S, jit_compile=True)(tf.constant(x))))
    return out


def run_case(case, mon):
    if case['kind'].startswith('process'):
        return other_process(case, mon)
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('p4', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    ish = gen.in_shape(d, kw)
    x = gen.signal('noise', [2] + ish, int(rng.integers(1 << 30))).astype('float64' if f in ('numpy', 'sklearn') and gen.chance(rng, .5) else 'float32')
    if gen.chance(rng, .3):
        x[1] = 0
    elif gen.chance(rng, .3):
        x[1] = gen.signal('impulse', ish, int(rng.integers(1 << 30)))
    xs = float(np.abs(x).max())
    S = fe.build(f, d, kw)
    run = lambda T: fe.norm(fe.call(f, d, T, x))
    want = run(S)
    again = run(S)
    stable = all(np.array_equal(a, b) for (_, a), (_, b) in zip(want, again))
    mon.event('stable' if stable else 'unstable')
    mon.nontrivial = any(a.any() for _, a in want)

    def judge(got, kind, key, what):
        if kind == 'bit' and stable:
            cmp.identical(mon, got, want, key, what)
        elif f == 'sklearn':
            for (_, a), (_, b) in zip(got, want):
                mon.close(a, b, key, 1e-4, detail=what)
        elif cmp.outputs(mon, d, kw, got, want, xs, key, detail=what):
            for (_, a), (_, b) in zip(got, want):
                mon.check(a.dtype == b.dtype, key + ':dtype', lambda: '%s: dtype %s, expected %s' % (what, a.dtype, b.dtype))
    M = modes(f)
    own = sorted(set(M) - set(common()))
    names = list(rng.permutation(own)[:4]) + list(rng.permutation(sorted(common()))[:2])
    for name in names:
        cm, kind, when = M[name]
        mon.state('mode', [f, name])
        if 'call' in when:
            with cm():
                ok, got = mon.attempt(lambda: run(S), K + name + ':failed', 'call under mode %s' % name)
            if ok:
                mon.event('called_under')
                judge(got, kind, K + name, 'call under mode %s' % name)
        if 'build' in when and f != 'jax' and gen.chance(rng, .4):
            inside = gen.chance(rng, .5)

            def make():
                with cm():
                    T = fe.build(f, d, kw)
                    if inside:
                        return run(T)
                return run(T)
            ok, got = mon.attempt(make, K + name + ':build_failed', 'construction under mode %s' % name)
            if ok:
                mon.event('built_under')
                judge(got, kind, K + name + ':build', 'object built under mode %s, called %s' % (name, 'under it too' if inside else 'without it'))
        if 'grad' in when and f == 'torch' and gen.chance(rng, .5) and sum(a.size for _, a in want) < 4e4:
            gradient(mon, S, x, cm, kind if stable else 'close', K + name + ':gradient', 'gradient under mode %s' % name)
    for name in rng.permutation(sorted(PLACES))[:2]:
        mon.state('place', [f, name])
        ok, got = mon.attempt(lambda: PLACES[name](lambda: run(S)), K + name + ':failed', 'call in %s' % name)
        if ok:
            mon.event('called_in')
            judge(got, 'bit', K + name, 'call in %s' % name)
    if f == 'tensorflow' and d == 'jtfs':
        return
    for name, kind, fn in compiled(f, d, S, x, rng):
        mon.state('way', [f, d, name])
        if name in OPTIONAL:
            try:
                got, ok = fe.norm(fn()), True
            except Exception:
                ok = False
                mon.event('way_refused')
        else:
            ok, got = mon.attempt(lambda: fe.norm(fn()), K + name + ':failed', 'call by way of %s' % name)
        if ok:
            mon.event('called_by')
            judge(got, kind, K + name, 'call by way of %s' % name)
    # and the object is what it was
    judge(run(S), 'bit', K + 'after', 'call after modes %s' % names)
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'modes': [str(n) for n in names]}


def gradient(mon, S, x, cm, kind, key, what):
    import numpy as np
    import torch

    def go(cm):
        t = torch.from_numpy(x).clone().requires_grad_()
        with cm():
            y = S(t)
            y = [p['coef'] for p in y] if isinstance(y, list) else [y]
            z = sum((v * v).sum() for v in y)
            z.backward()
        return t.grad.numpy()
    want = go(contextlib.nullcontext)
    if not np.isfinite(want).all():
        return
    ok, got = mon.attempt(lambda: go(cm), key + ':failed', what)
    if ok:
        mon.event('gradient_under')
        if kind == 'bit':
            mon.same(got, want, key, what)
        else:
            mon.close(got, want, key, 1e-3, detail=what)


# ---- other interpreters

CHILD = '''
import sys, pickle, warnings
sys.path[:0] = %r
spec = pickle.load(open(%r, 'rb'))
if spec['quiet']:
    warnings.simplefilter('ignore')
from kymon.props.P04 import observe
with open(%r, 'wb') as f:
    pickle.dump((observe(spec), sys.flags.optimize), f)
'''
# (flags, environment); None removes a variable
FLAGS = [([], {}), (['-O'], {}), (['-OO'], {}), (['-X', 'dev'], {}), (['-X', 'utf8=0'], {'LC_ALL': 'C', 'LANG': None}), (['-I'], {}), (['-E', '-s'], {}), (['-bb'], {}),
         (['-W', 'error::RuntimeWarning', '-W', 'error::FutureWarning'], {}), ([], {'PYTHONHASHSEED': '1'}), ([], {'PYTHONHASHSEED': '77'}), ([], {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}),
         ([], {'HOME': None, 'USER': None, 'LOGNAME': None, 'TMPDIR': '/nonexistent'}), ([], {'TZ': 'Pacific/Kiritimati'}), (['-X', 'importtime'], {}), (['-X', 'int_max_str_digits=640'], {}),
         ([], {'KYMATIO_BACKEND': 'torch', 'KYMATIO_CACHE': '/nonexistent', 'KYMATIO_FRONTEND': 'jax', 'KERAS_BACKEND': 'tensorflow'}), (['-O'], {'PYTHONHASHSEED': '5', 'LC_ALL': 'C'}), ([], {'PYTHONMALLOC': 'debug'}),
         ([], {'OMP_NUM_THREADS': '3', 'OPENBLAS_NUM_THREADS': '3', 'MKL_NUM_THREADS': '3'}), ([], {'COLUMNS': '5', 'TERM': 'dumb', 'NO_COLOR': '1'})]

# parameters and inputs which are refused
BAD = {'1d': [dict(J=3, shape=32, max_order=3), dict(J=3, shape=32, T=64), dict(J=3, shape=32, Q=0), dict(J=3, shape=32, stride=3), dict(J=3, shape=32, stride=64), dict(J=3, shape=(32, 32)), dict(J=3, shape=32, oversampling=-1),
              dict(J=3, shape=32, Q=(1, 2, 3)), dict(J=3, shape=32, out_type='set'), dict(J=3, shape=32, T=0), dict(J=3, shape=32, T='all')],
       'jtfs': [dict(J=3, J_fr=1, shape=32, Q=2, format='both'), dict(J=3, J_fr=1, shape=32, Q=0), dict(J=3, J_fr=1, shape=32, Q=2, Q_fr=0), dict(J=3, J_fr=1, shape=32, Q=2, stride_fr=3), dict(J=3, J_fr=1, shape=32, Q=2, F=1000)],
       '2d': [dict(J=4, shape=(8, 16)), dict(J=2, shape=(8, 8), max_order=3), dict(J=2, shape=(8, 8), max_order=0), dict(J=2, shape=(8, 8), out_type='dict')],
       '3d': [dict(J=1, shape=(6, 6, 6), L=1, max_order=3), dict(J=1, shape=(6, 6, 6), L=1, method='local')]}
GOOD = {'1d': dict(J=3, shape=32), 'jtfs': dict(J=3, J_fr=1, shape=32, Q=2), '2d': dict(J=2, shape=(8, 8)), '3d': dict(J=1, shape=(6, 6, 6), L=1)}
BADSHAPES = {'1d': [()], 'jtfs': [()], '2d': [(8,), (8, 7), (7, 8), (2, 9, 8)], '3d': [(6, 6), (6, 6, 5), (5, 6, 6), (2, 6, 7, 6)]}


def observe(spec):
    """Runs in the other interpreter, and in this one."""
    import numpy as np
    from .. import fe
    f = spec['fe']
    out = []
    for d, kw, x in spec['runs']:
        S = fe.build(f, d, kw)
        y = fe.norm(fe.call(f, d, S, x))
        m = {k: np.asarray(v, dtype=object).tolist() if not isinstance(v, np.ndarray) else v.tolist() for k, v in S.meta().items()} if d in ('1d', 'jtfs') else None
        out.append((y, repr(sorted(m.items())) if m else ''))

    def refused(fn):
        try:
            fn()
        except Exception as e:
            return type(e).__name__
        return None
    no = []
    for d, kws in BAD.items():
        for kw in kws:
            def go():
                if f == 'sklearn' and 'out_type' in kw:
                    raise ValueError
                S = fe.build(f, d, kw)
                fe.call(f, d, S, np.ones(gen.in_shape(d, kw), 'float32'))
            no.append((d, str(kw), refused(go)))
    for d, shapes in BADSHAPES.items():
        S = fe.build(f, d, GOOD[d])
        for s in shapes:
            x = np.ones(s, 'float32')
            no.append((d, 'input %s' % (s,), refused(lambda: S.predict(x.reshape(x.shape[:-fe.NDIM[d]] + (-1,))) if f == 'sklearn' else S(fe.to_fe(f, x)))))
    return out, no


def other_process(case, mon):
    import os
    import pickle
    import subprocess
    import sys
    import tempfile
    from .. import core, cmp
    f = case['fe']
    rng = gen.rng_for('pp', case['seed'])
    runs = [(d, kw, gen.signal('noise', [2] + gen.in_shape(d, kw), int(rng.integers(1 << 30))).astype('float32')) for d, kw in case['objs']]
    flags, envs = FLAGS[int(rng.integers(len(FLAGS)))] if gen.chance(rng, .75) else gen.pick(rng, [FLAGS[1], FLAGS[2]])
    if '-OO' in flags and f in ('tensorflow', 'jax'):
        # these libraries need their docstrings
        flags = ['-O']
    cwd = gen.pick(rng, ['/', 'scratch'])
    closed = gen.chance(rng, .2)
    what = 'python %s with %s in %s' % (' '.join(flags), envs, cwd)
    spec = {'fe': f, 'runs': runs, 'quiet': '-W' not in flags}
    want, no = observe(spec)
    env = dict(os.environ, CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', KERAS_BACKEND='tensorflow')
    for k, v in envs.items():
        env.pop(k, None)
        if v is not None:
            env[k] = v
    base = os.path.join(core.VERIF, 'evidence', 'scratch')
    os.makedirs(base, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='p04-', dir=base) as tmp:
        a, b = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        with open(a, 'wb') as h:
            pickle.dump(spec, h)
        cmd = [sys.executable, '-B'] + flags + ['-c', CHILD % ([core.REPO, core.VERIF], a, b)]
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL if closed else subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300, env=env, cwd='/' if cwd == '/' else tmp)
        if not mon.check(p.returncode == 0 and os.path.exists(b), 'process:%s:failed' % f, lambda: '%s: exit status %s: %s' % (what, p.returncode, '\n'.join(p.stderr.split('\n')[-6:])[-900:])):
            return
        with open(b, 'rb') as h:
            (got, no2), opt = pickle.load(h)
    mon.event('process')
    mon.state('process', [flags, sorted(envs.items(), key=str), cwd, closed])
    if opt:
        mon.event('process_without_assertions')
    threads = any('NUM_THREADS' in k for k in envs)
    for (d, kw, x), (y, m), (z, n) in zip(runs, want, got):
        mon.nontrivial = mon.nontrivial or any(v.any() for _, v in y)
        if f in ('numpy', 'sklearn') and not threads:
            cmp.identical(mon, z, y, 'process:%s:%s' % (f, d), what)
        elif f == 'sklearn':
            mon.close(z[0][1], y[0][1], 'process:%s:%s' % (f, d), 1e-4, detail=what)
        else:
            cmp.outputs(mon, d, kw, z, y, float(abs(x).max()), 'process:%s:%s' % (f, d), detail=what)
        mon.check(m == n, 'process:%s:%s:meta' % (f, d), lambda: '%s: other metadata for %s' % (what, kw))
    for (d, w, e), (_, _, g) in zip(no, no2):
        mon.event('refused_in_process' if e else 'accepted_in_process')
        mon.check(e == g, 'process:%s:%s:refusal' % (f, d), lambda: '%s: %s gives %s, in an ordinary interpreter %s' % (what, w, g or 'a result', e or 'a result'))
    mon.sample = {'fe': f, 'flags': flags, 'env': envs, 'objects': len(runs)}
