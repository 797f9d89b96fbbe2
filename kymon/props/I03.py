"""Invariances of the 3D transform."""
from .. import gen

TECHNIQUE = 'metamorphic monitor (translation, rotations and reflections of the grid, scaling, sign) over observed executions'
NOTE = 'Sampled parameters, volumes, translations and all 48 signed permutations of the grid axes; judged on every coefficient. No proof.'
RULE = 'seeded random (frontend, parameters, volume, translation, signed permutation, scale); non-trivial = output not all zero'
ASSUMPTIONS = ['axis permutations act on the grid shape too', 'single-precision tolerance; even grids: the Nyquist planes are not symmetric under reflections, volumes are band-limited there']
REQUIRED = {'translation': 100, 'signed_permutation': 150, 'scaling': 100, 'positivity': 100}
N = {'numpy': 10, 'torch': 4, 'tensorflow': 1, 'jax': 1, 'sklearn': 0, 'keras': 0}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('I03', tier, seed)
    n = 70 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs(['numpy', 'torch', 'tensorflow', 'jax'], ['3d']):
            if f in ('jax', 'tensorflow') and tier == 'quick' and i % 8:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, f != 'numpy')
                yield dict(kind=f, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)), lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)))


def no_nyquist(x):
    import numpy as np
    X = np.fft.fftn(x, axes=(-3, -2, -1))
    for ax in (-3, -2, -1):
        n = x.shape[ax]
        if n % 2 == 0:
            X = np.moveaxis(X, ax, -1)
            X[..., n // 2] = 0
            X = np.moveaxis(X, -1, ax)
    return np.fft.ifftn(X, axes=(-3, -2, -1)).real


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], '3d', case['kw']
    rng = gen.rng_for('i', case['seed'])
    dt = 'float64' if f == 'numpy' else 'float32'
    run = lambda v, S: fe.run(f, d, S, np.ascontiguousarray(v.astype(dt)))[0].astype(float)
    S = fe.build(f, d, kw)
    shape = case['lead'] + list(kw['shape'])
    x = gen.make(dict(case['sig'], shape=shape))
    if case['seed'] % 2:
        x = x + gen.signal('noise', shape, case['seed'])
    x = x.astype(dt).astype(float)
    xs = float(np.abs(x).max())
    K = f + ':'
    q = np.array(kw.get('integral_powers', (0.5, 1.0, 2.0)), float)
    y = run(x, S)
    mon.state('config', [f, kw])
    mon.nontrivial |= bool(np.any(y))
    sh = tuple(int(rng.integers(0, n)) for n in kw['shape'])
    mon.event('translation')
    cmp.close(mon, d, kw, run(np.roll(x, sh, (-3, -2, -1)), S), y, xs, K + 'translation', 'single', 'shift %s' % (sh,))
    mon.event('positivity')
    mon.check(bool((y >= 0).all()), K + 'positivity', lambda: 'smallest coefficient %g' % y.min())
    a = float(gen.pick(rng, [-1.0, -2.5, 0.125, 3.0, 100.0, 1e-3]))
    mon.event('scaling')
    cmp.close(mon, d, kw, run(a * x, S) / abs(a) ** q, y, xs, K + 'scaling', 'single', 'x * %g' % a)
    if kw.get('rotation_covariant', True):
        z = no_nyquist(x)
        y = run(z, S)
        xs = float(np.abs(z).max())
        for _ in range(2):
            perm = [int(v) for v in rng.permutation(3)]
            sg = [int(v) for v in rng.integers(0, 2, 3)]
            nl = len(case['lead'])
            w = np.transpose(z, list(range(nl)) + [nl + p for p in perm])
            for ax, s in zip((-3, -2, -1), sg):
                if s:
                    w = np.flip(w, ax)
            S2 = fe.build(f, d, dict(kw, shape=[kw['shape'][p] for p in perm]))
            mon.event('signed_permutation')
            mon.state('permutation', [perm, sg])
            cmp.close(mon, d, kw, run(w, S2), y, xs, K + 'rotation', 'single', 'axes %s, flips %s' % (perm, sg))
    mon.sample = {'fe': f, 'kw': kw, 'shape': list(y.shape)}
