"""Symmetries of the 1D transform and of JTFS."""
from .. import gen

TECHNIQUE = 'metamorphic monitor (scaling, sign, constants, linearity, shift, reversal, positivity) over observed executions'
NOTE = 'Sampled parameters, signals and magnitudes; every relation is judged on every path of the observed outputs. No proof.'
RULE = 'seeded random (frontend, transform, parameters, signal, scale, constant, shift); non-trivial = output not all zero'
ASSUMPTIONS = ['scales: 2**-500 .. 2**500 for NumPy in double precision, 2**-80 .. 2**80 for JAX and TensorFlow, 2**-46 .. 2**46 for PyTorch (its modulus squares, so more would leave the single-precision range)', 'shifts: signals supported in the middle of a window of at least 48 times 2^J', 'reversal: even lengths at stride 1, where the sampling grid is symmetric',
               'positivity up to the negative lobes of the reference low-pass filter (ringing)']
REQUIRED = {'scaling': 200, 'extreme': 200, 'sign': 200, 'constant': 200, 'linear0': 200, 'shift': 50, 'reversal': 50, 'positivity': 100}
N = {'numpy': 10, 'torch': 3, 'tensorflow': 1, 'jax': 1, 'sklearn': 0, 'keras': 0}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('I01', tier, seed)
    n = 70 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs(['numpy', 'torch', 'tensorflow', 'jax'], ['1d', 'jtfs']):
            if f in ('jax', 'tensorflow') and tier == 'quick' and i % 8:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, f != 'numpy')
                kw['out_type'] = 'list'
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)),
                           lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)), rel='algebra')
            if d == '1d':
                J = int(rng.integers(1, 6))
                N_ = int(rng.integers(48 << J, (80 << J) + 1))
                q = int(gen.pick(rng, [1, 2, 4, 8]))
                kw = dict(J=J, shape=N_, Q=gen.pick(rng, [q, [q, 1], [q, 2 if q > 1 else 1]]), out_type='list')
                s = int(rng.integers(3))
                if s == 0:
                    kw['T'] = 2 ** int(rng.integers(0, J + 1))
                elif s == 1:
                    kw['T'] = 0
                T = kw.get('T', 2 ** J)
                if T and gen.chance(rng, .5):
                    kw['stride'] = 2 ** int(rng.integers(0, T.bit_length()))
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)), rel='shift')
                if f == 'numpy':
                    kw = gen.fe_cfg(f, d, rng)
                    kw = {k: v for k, v in kw.items() if k not in ('oversampling', 'out_type')}
                    kw.update(stride=1, out_type='list', shape=kw['shape'] + kw['shape'] % 2)
                    if kw.get('T') in (0, 'global'):
                        kw.pop('T')
                    yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)),
                               lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)), rel='reversal')


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, refs
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('i', case['seed'])
    dt = 'float64' if f in ('numpy', 'torch0') else 'float32'
    prec = 'double' if f == 'numpy' else 'single'
    S = fe.build(f, d, kw)
    run = lambda v: fe.norm(fe.call(f, d, S, v.astype(dt)))
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    if case['rel'] == 'shift':
        N = kw['shape']
        w = N // 16
        x = np.zeros(N)
        a0 = N // 2 - w // 2
        x[a0:a0 + w] = gen.signal(gen.pick(rng, ['noise', 'burst', 'sparse', 'chirp', 'impulse']), [w], case['seed']) * np.hanning(w + 2)[1:-1]
        T = kw.get('T', 2 ** kw['J'])
        step = 2 ** kw['J'] if T == 0 else kw.get('stride', 2 ** (int(T).bit_length() - 1))
        m = int(rng.integers(-(N // 8 // step), N // 8 // step + 1))
        if m == 0:
            m = 1 if step <= N // 8 else 0
        y, z = run(x), run(np.roll(x, m * step))
        mon.event('shift')
        mon.state('shift', [kw['J'], step, m])
        xs = float(np.abs(x).max())
        for (p, A), (_, B) in zip(y, z):
            q = 2 ** (p['j'][-1] if p['j'] else 0) if T == 0 else step
            B2 = np.roll(B, -m * step // q, axis=-1)
            cut = abs(m * step // q)
            sl = slice(cut, A.shape[-1] - cut)
            mon.nontrivial |= bool(np.any(A))
            mon.below(np.abs(A[sl] - B2[sl]).max() if A[sl].size else 0, (1e-7 if prec == 'double' else 1e-4) * np.abs(A).max() + (1e-9 if prec == 'double' else 1e-6) * xs, K + 'shift:%d' % min(2, len(p['n'])),
                      'path %s shifted by %d samples of stride %d' % (p['n'], m, step))
        return
    x = gen.make(dict(case['sig'], shape=case['lead'] + [kw['shape']])).astype(dt).astype(float)
    xs = float(np.abs(x).max())
    y = run(x)
    if case['rel'] == 'reversal':
        mon.event('reversal')
        z = run(x[..., ::-1])
        cmp.outputs(mon, d, kw, [(p, a[..., ::-1]) for p, a in z], y, xs, K + 'reversal', 'double', detail='time-reversed')
        return
    # scaling
    for a in (float(gen.pick(rng, [1e-12, 1e-9, 1e-6])), float(gen.pick(rng, [1e-3, .37, 3.0, 1e3, 1e6]))):
        if prec == 'single':
            a = max(a, 1e-9)
        mon.event('scaling')
        mon.state('scale', a)
        z = run(a * x)
        if not cmp.outputs(mon, d, kw, [(p, v.astype(float) / a) for p, v in z], [(p, v.astype(float)) for p, v in y], xs, K + 'scaling', prec, detail='x * %g' % a):
            break
    # magnitudes near the ends of the range of the number format
    if f == 'torch':
        e = int(rng.integers(30, 46))
    else:
        e = int(rng.integers(300, 500) if f == 'numpy' else rng.integers(50, 80))
    for e in (e, -e):
        mon.event('extreme')
        mon.state('exponent', e)
        z = run(np.ldexp(x, e))
        if not cmp.outputs(mon, d, kw, [(p, np.ldexp(v.astype(float), -e)) for p, v in z], [(p, v.astype(float)) for p, v in y], xs, K + 'extreme', prec, detail='x * 2**%d' % e):
            break
    hi = lambda s: [t for t in s if t[0]['order' if 'order' in t[0] else 'n'] not in (0, ())]
    zero = lambda s: [t for t in s if not t[0]['n']]
    # sign
    mon.event('sign')
    z = run(-x)
    cmp.outputs(mon, d, kw, hi(z), hi(y), xs, K + 'sign', prec, detail='-x')
    cmp.outputs(mon, d, kw, [(p, -v) for p, v in zero(z)], zero(y), xs, K + 'sign0', prec, detail='-x, zeroth order')
    # constant
    c = float(gen.pick(rng, [1.0, -0.5, 10.0, 100.0])) * (xs or 1.0)
    mon.event('constant')
    z = run(x + c)
    cmp.outputs(mon, d, kw, hi(z), hi(y), xs + abs(c) * (10 if prec == 'double' else 1), K + 'constant', prec, detail='x + %g' % c)
    # zeroth order is linear
    u = gen.signal('noise', list(x.shape), case['seed'], xs or 1.0)
    a, b = float(rng.standard_normal()), float(rng.standard_normal())
    mon.event('linear0')
    zu, zx = zero(run(u)), zero(y)
    comb = [(p, a * v.astype(float) + b * w.astype(float)) for (p, v), (_, w) in zip(zx, zu)]
    cmp.outputs(mon, d, kw, zero(run(a * x + b * u)), comb, (abs(a) + abs(b)) * (xs or 1.0) * 3, K + 'linear', prec, detail='zeroth order of a linear combination')
    # positivity
    if d == '1d':
        mon.event('positivity')
        # an average with the low-pass filter is negative by at most its negative lobes times the largest modulus
        c = refs.Cfg1D(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k in ('J', 'shape', 'Q', 'T', 'stride', 'oversampling')})
        lobes = max(float(np.maximum(-np.fft.ifft(refs.at_level(c.phi, k)).real, 0).sum()) for k in range(c.ls + 1)) if c.mode == 'local' else 0.0
        for p, v in hi(y):
            mon.below(max(0.0, -float(v.min())), 1.5 ** (1 + len(p['n'])) * lobes * xs + (1e-12 if prec == 'double' else 1e-6) * xs, K + 'positivity', 'path %s' % (p['n'],))
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'paths': len(y)}
