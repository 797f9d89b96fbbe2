"""Finite, stable outputs without floating-point faults."""
from .. import gen

TECHNIQUE = 'runtime floating-point fault monitor (numpy error callbacks), finiteness sanitizer and stability oracle over hostile inputs'
NOTE = 'Sampled parameters and hostile inputs and perturbations; every observed value is checked for finiteness, every path against its Lipschitz bound, numpy floating-point faults are counted during calls. No proof.'
RULE = 'seeded random (frontend, transform, parameters, hostile input, perturbation); non-trivial = output not all zero'
ASSUMPTIONS = ['l1 norms of the filters are those of the reference filters (2D) or one (1D, JTFS), with 3% slack for sampled filters',
               '3D powers: |x|^q below 1e30, so that sums fit in single precision']
REQUIRED = {'hostile_input': 1000, 'perturbation': 400, 'zero_input': 200, 'call_watched': 500}
N = {'numpy': 10, 'torch': 4, 'sklearn': 2, 'tensorflow': 2, 'keras': 1, 'jax': 1}
HOSTILE = ['zeros', 'enormous', 'subnormal', 'tiny', 'huge', 'mixed', 'constant', 'impulse', 'alternating', 'impulses_edge', 'heavy', 'sparse', 'minus_zero', 'step', 'noise']


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('E01', tier, seed)
    n = 26 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            if f in ('jax', 'tensorflow', 'keras') and tier == 'quick' and i % 5:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, f != 'numpy')
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


def hostile(name, shape, seed, qmax, wide=False):
    import numpy as np
    rng = gen.rng_for('h', name, seed)
    top = 10.0 ** min(15, 30 / max(qmax, 1))
    if name == 'subnormal':
        return rng.integers(-3, 4, shape) * 5e-324
    if name == 'tiny':
        return rng.standard_normal(shape) * 1e-30
    if name == 'huge':
        return np.clip(rng.standard_normal(shape), -3, 3) / 3 * top
    if name == 'enormous':
        return np.clip(rng.standard_normal(shape), -3, 3) * (1e200 if wide else top / 3)
    if name == 'mixed':
        return rng.choice([1.0, -1.0], shape) * 10.0 ** rng.uniform(-30, np.log10(top), shape)
    if name == 'minus_zero':
        return -np.zeros(shape)
    return gen.signal(name, list(shape), seed, float(gen.pick(rng, [1.0, 1e-3, 1e3])))


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, refs
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('e', case['seed'])
    dt = 'float64' if f in ('numpy', 'sklearn') else 'float32'
    lead = [2] if f == 'keras' else []
    shape = lead + gen.in_shape(d, kw)
    qmax = max(kw.get('integral_powers', (2.0,))) if d == '3d' else 1
    S = fe.build(f, d, kw)
    mon.state('config', [f, d, kw])
    K = '%s:%s:' % (f, d)
    faults = []

    def run(x):
        mon.event('call_watched')
        old_call = np.seterrcall(lambda kind, flag: faults.append(kind))
        try:
            with np.errstate(over='call', invalid='call', divide='call'):
                return fe.norm(fe.call(f, d, S, x))
        finally:
            np.seterrcall(old_call)

    names = ['zeros', 'minus_zero'] + [gen.pick(rng, HOSTILE) for _ in range(5)]
    for name in names:
        x = hostile(name, tuple(shape), case['seed'], qmax, dt == 'float64' and d != '3d')
        with np.errstate(all='ignore'):
            x = x.astype(dt)
        mon.event('hostile_input')
        mon.state('hostile', [f, d, name])
        del faults[:]
        y = run(x)
        mon.check(not faults, K + 'fault', lambda: 'floating-point faults %s for input %s' % (sorted(set(faults)), name))
        for p, a in y:
            mon.event('value_checked', a.size)
            mon.nontrivial |= bool(np.any(a))
            if not mon.check(bool(np.isfinite(a).all()), K + 'finite', lambda: '%d non-finite values for input %s (path %s)' % ((~np.isfinite(a)).sum(), name, (p or {}).get('n'))):
                return
        if name in ('zeros', 'minus_zero'):
            mon.event('zero_input')
            if not mon.check(all(not np.any(a) for _, a in y), K + 'zero', 'non-zero output for zero input'):
                return
    if d == '3d':
        return
    # Lipschitz bounds
    gain = lambda p: 1.0
    if d == '2d':
        ref = refs.Cfg2D(**{k: v for k, v in kw.items() if k in ('J', 'shape', 'L', 'max_order', 'pre_pad')})
        l1 = lambda g: float(np.abs(np.fft.ifft2(g)).sum())
        lp = max(l1(g) for g in ref.phi_l)
        tops = []
        for i, p in enumerate(ref.psi):
            tops.append(max(l1(ref.level(i, k)) for k in range(p['j'] + 1)))
        one = max(tops)
        gain = lambda p: lp * one ** 2 if p is None or 'n' not in p else lp * float(np.prod([tops[i] for i in p['n']]))
        if f in ('sklearn', 'keras') or kw.get('out_type', 'array') == 'array':
            gain = lambda p: lp * max(1, one, one ** 2)
    else:
        c = refs.Cfg1D(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k in ('J', 'shape', 'Q', 'T', 'stride', 'max_order')})
        g = float(c.Np) if c.mode == 'global' else 1.0
        if d == 'jtfs' and kw.get('F') == 'global':
            g *= refs.CfgJTFS(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k not in ('out_type', 'format')}).Nf
        gain = lambda p: g
    for t in range(3):
        x = gen.signal(gen.pick(rng, gen.KINDS), shape, case['seed'] + t, 1.0, dt)
        xs = float(np.abs(x).max())
        eps = float(gen.pick(rng, [1e-1, 1e-2, 1e-4, 10.0])) * xs
        s = int(rng.integers(4))
        if s == 0:
            v = np.ones(shape)
        elif s == 1:
            v = rng.choice([-1.0, 1.0], shape)
        elif s == 2:
            v = np.zeros(shape); v.reshape(-1)[int(rng.integers(v.size))] = 1.0
        else:
            v = np.sign(np.cos(2 * np.pi * rng.random() * np.arange(v_len(shape)) / 2)).reshape(shape)
        z = (x + eps * v).astype(dt)
        e = float(np.abs(z.astype(float) - x).max())
        mon.event('perturbation')
        for (p, a), (_, b) in zip(run(x), run(z)):
            b_ = gain(p)
            mon.below(np.abs(a.astype(float) - b).max() if a.size else 0, 1.03 * b_ * e + b_ * (1e-12 if dt == 'float64' and d != '2d' else 3e-6) * (xs + e), K + 'stability',
                      'perturbation %g of style %d moved path %s' % (e, s, (p or {}).get('n')))
    mon.sample = {'fe': f, 'dim': d, 'kw': kw}


def v_len(shape):
    n = 1
    for s in shape:
        n *= s
    return n
