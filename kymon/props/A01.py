"""Entry points of the package."""
import json
import os
import subprocess
import sys
from .. import gen
from . import V02

TECHNIQUE = 'differential monitoring of objects made through the entry points against directly constructed ones (class, public state, bitwise outputs); module-load monitor in fresh interpreters, with frameworks hidden by import fault injection'
NOTE = 'Sampled parameters and argument styles. No proof.'
RULE = 'seeded random (entry point, frontend, letter case, argument style, parameters); non-trivial = the outputs are not all zero'
ASSUMPTIONS = ['frontend names are strings']
REQUIRED = {'entry': 1500, 'default_frontend': 150, 'unknown_frontend': 800, 'foreign_backend': 800, 'backend_object': 200, 'fresh_interpreter': 10, 'tensorflow_name': 5}
PER = {'numpy': 4, 'torch': 4, 'sklearn': 4, 'tensorflow': 2, 'jax': 1, 'keras': 2}
FRAMES = ('torch', 'tensorflow', 'keras', 'jax', 'sklearn')


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('A01', tier, seed)
    for i, c in enumerate(fresh()):
        yield dict(kind='fresh:' + c[0], mode='fresh', index=i, aff='np')
    n = 30 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            for k in range(PER[f]):
                if tier == 'quick' and (f in ('jax', 'keras') and i % 5 or f == 'tensorflow' and i % 3):
                    continue
                kw = gen.fe_cfg(f, d, rng, True)
                if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                    kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                yield dict(kind='%s:%s' % (f, d), mode='entry', fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


NUMPY_ALL = '''
import numpy as np, kymatio
x = np.random.RandomState(0).randn(2, 32)
for S, s in ((kymatio.Scattering1D(2, 32), (2, 32)), (kymatio.TimeFrequencyScattering(2, 1, 1, 32), (2, 32)), (kymatio.Scattering2D(1, (8, 8)), (2, 8, 8)),
             (kymatio.HarmonicScattering3D(1, (4, 4, 4), L=1), (2, 4, 4, 4))):
    assert type(S).__module__ == 'kymatio.numpy' or 'numpy' in type(S).__name__.lower(), type(S)
    y = S(np.random.RandomState(0).randn(*s))
    assert np.isfinite(y).all()
'''
REFUSED = '''
import kymatio
for f in ('torch', 'tensorflow', 'keras', 'jax', 'sklearn'):
    for k in range(2):
        try:
            kymatio.Scattering2D(1, shape=(8, 8), frontend=f)
        except Exception as e:
            assert isinstance(e, ImportError), (f, repr(e))
        else:
            raise AssertionError('frontend %s built without its framework' % f)
'''


def fresh():
    """(name, code, frameworks that must not be loaded, frameworks hidden)."""
    al = FRAMES
    yield 'import', 'import kymatio', al, ()
    yield 'numpy module', 'import kymatio.numpy', al, ()
    yield 'all subpackages', 'import kymatio.scattering1d, kymatio.scattering2d, kymatio.scattering3d, kymatio.caching, kymatio.scattering1d.filter_bank, kymatio.scattering2d.filter_bank, kymatio.scattering3d.filter_bank, kymatio.scattering3d.utils', al, ()
    yield 'numpy transforms', NUMPY_ALL, al, ()
    yield 'numpy transforms, frameworks missing', NUMPY_ALL, al, al
    yield 'other frontends refused, frameworks missing', REFUSED + NUMPY_ALL, al, al
    yield 'star import', 'from kymatio import *\nassert {"Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"} <= set(globals())', al, ()
    yield 'torch', 'import kymatio\nkymatio.Scattering1D(2, 32, frontend="torch")\nassert "torch" in sys.modules', ('tensorflow', 'keras', 'jax'), ()
    yield 'jax', 'import kymatio\nkymatio.Scattering2D(1, (8, 8), frontend="jax")\nassert "jax" in sys.modules', ('tensorflow', 'keras', 'torch'), ()
    yield 'sklearn', 'import kymatio\nkymatio.Scattering2D(1, (8, 8), frontend="sklearn")\nassert "sklearn" in sys.modules', ('tensorflow', 'keras', 'torch', 'jax'), ()
    yield 'torch, others missing', 'import kymatio.torch, torch\nkymatio.torch.HarmonicScattering3D(1, (4, 4, 4), L=1)(torch.zeros(4, 4, 4))', ('tensorflow', 'keras', 'jax', 'sklearn'), ('tensorflow', 'keras', 'jax')
    yield 'refusals, then numpy', 'import kymatio\nfor f in ("foo", "", "numpy1"):\n    try:\n        kymatio.Scattering1D(2, 32, frontend=f)\n    except RuntimeError:\n        pass\n    else:\n        raise AssertionError(f)\n' + NUMPY_ALL, al, ()


PRE = '''
import sys, os, json
hidden = %r
class Hide:
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in hidden:
            raise ModuleNotFoundError('No module named %%r (hidden)' %% name)
sys.meta_path.insert(0, Hide())
sys.path.insert(0, %r)
'''
POST = '''
print('LOADED ' + json.dumps(sorted({m.split('.')[0] for m in sys.modules} & {'torch', 'tensorflow', 'keras', 'jax', 'sklearn', 'tf_keras'})))
'''


def run_fresh(case, mon):
    from .. import core
    name, code, absent, hidden = list(fresh())[case['index']]
    mon.event('fresh_interpreter')
    mon.state('fresh', name)
    env = dict(os.environ, CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', PRE % (list(hidden), core.REPO) + code + POST], capture_output=True, text=True, timeout=300, env=env, cwd='/')
    got = [l for l in p.stdout.splitlines() if l.startswith('LOADED ')]
    if not mon.check(p.returncode == 0 and len(got) == 1, 'fresh:' + name, lambda: 'fresh interpreter failed: ' + p.stderr[-800:]):
        return
    loaded = set(json.loads(got[0][7:]))
    bad = sorted(loaded & set(absent))
    mon.check(not bad, 'fresh:loaded:' + name, lambda: '%s loaded after %r' % (bad, code[:200]))
    mon.nontrivial = True
    mon.sample = {'fresh': name, 'loaded': sorted(loaded)}


def run_case(case, mon):
    if case['mode'] == 'fresh':
        return run_fresh(case, mon)
    import numpy as np
    import kymatio
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('e', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    entry = getattr(kymatio, fe.CLS[d])
    cls = fe.cls(f, d)
    x = gen.signal(gen.pick(rng, ['noise', 'burst', 'chirp']), [2] + gen.in_shape(d, kw), case['seed']).astype('float32')
    if f == 'keras':
        kw = {k: v for k, v in kw.items() if k not in ('shape', 'out_type')}
    direct = cls(**fe.kwargs(kw))
    want = fe.norm(fe.call(f, d, direct, x))
    mon.nontrivial = any(np.any(a) for _, a in want)

    def same(S, key, what):
        if not mon.check(type(S) is type(direct) and isinstance(S, cls), K + key + ':class', lambda: '%s gives %s, expected %s' % (what, type(S), cls)):
            return
        got = fe.norm(fe.call(f, d, S, x))
        cmp.identical(mon, got, want, K + key, what)
        V02.readback(mon, K + key + ':', f, d, S, dict(kw, shape=[20, 20]) if f == 'keras' and d == '2d' else dict(kw, shape=kw.get('shape', case['kw']['shape'])))

    order = V02.signature(f, d)

    def args(k):
        a, rest = [], dict(kw)
        for name, default in order[:k]:
            v = rest.pop(name, default)
            a.append(tuple(v) if isinstance(v, list) else v)
        return a, fe.kwargs(rest)
    for _ in range(2 if f in ('numpy', 'torch', 'sklearn') else 1):
        name = ''.join(c.upper() if gen.chance(rng, .5) else c for c in f) if gen.chance(rng, .6) else f
        a, rest = args(int(gen.pick(rng, [0, 0, 1, 2, len(order), int(rng.integers(len(order) + 1))])))
        mon.event('entry')
        mon.state('spelling', name)
        mon.state('positional', [f, d, len(a)])
        keys = list(rest) + ['frontend']
        rest['frontend'] = name
        rest = {keys[int(i)]: rest[keys[int(i)]] for i in rng.permutation(len(keys))}
        given = dict(rest)
        S = entry(*a, **rest)
        mon.check(rest == given, K + 'arguments', 'the caller\'s keyword arguments were changed')
        same(S, 'entry', '%s(*%s, **%s)' % (entry.__name__, a, rest))
    if f == 'numpy':
        a, rest = args(int(rng.integers(len(order) + 1)))
        mon.event('default_frontend')
        same(entry(*a, **rest), 'default', 'entry point without a frontend')
    if f == 'tensorflow':
        nm = 'abc%d' % int(rng.integers(100))
        mon.event('tensorflow_name')
        T = entry(frontend='tensorflow', name=nm, **fe.kwargs(kw))
        mon.equal(T.name, nm, K + 'name', 'name given through the entry point')
        mon.equal(entry(frontend='tensorflow', **fe.kwargs(kw)).name, direct.name, K + 'name', 'default name')
        same(T, 'named', 'entry point with a name')
    # refused: unknown frontends, and backends of other frontends
    for bad in [gen.pick(rng, ['foo', '', 'numpy ', 'np', 'pytorch', 'tf', 'torch_skcuda', 'scikit-learn', 'entry', 'base', 'numpy.', 'tensor flow', '..numpy', 'Transformer'])] * 1:
        mon.event('unknown_frontend')
        try:
            S = entry(frontend=bad, **fe.kwargs(kw))
        except (RuntimeError, ImportError, ValueError) as e:
            mon.state('message', str(e)[:40])
        except Exception as e:
            mon.violate(K + 'unknown', 'frontend %r: %s: %s' % (bad, type(e).__name__, e))
        else:
            mon.violate(K + 'unknown', 'frontend %r accepted: %s' % (bad, type(S)))
    if f != 'keras':
        own = 'numpy' if f == 'sklearn' else f
        mod = __import__('importlib').import_module('kymatio.scattering%s.backend.%s_backend' % ({'jtfs': '1d'}.get(d, d), own))

        class Mine(mod.backend):
            pass
        mon.event('backend_object')
        same(entry(frontend=f, **dict(fe.kwargs(kw), backend=gen.pick(rng, [mod.backend, Mine]))), 'backend_object', 'backend given as an object')

        class Other(mod.backend):
            name = gen.pick(rng, [n for n in ('numpy', 'torch', 'jax', 'tensorflow', 'foo', '') if n != own])
        others = [n for n in ('numpy', 'torch', 'jax', 'tensorflow', 'torch_skcuda', 'foo', own.upper() if own.upper() != own else 'x', 'keras') if not n.startswith(own)]
        for bad in (gen.pick(rng, others), Other, own + '_missing'):
            mon.event('foreign_backend')
            try:
                S = entry(frontend=f, **dict(fe.kwargs(kw), backend=bad))
            except (ImportError, RuntimeError, ValueError):
                pass
            except Exception as e:
                mon.violate(K + 'foreign', 'backend %r: %s: %s' % (bad, type(e).__name__, e))
            else:
                mon.violate(K + 'foreign', 'backend %r accepted by %s: %s' % (bad, f, type(S)))
    mon.sample = {'fe': f, 'dim': d, 'kw': kw}
