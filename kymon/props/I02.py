"""Symmetries of the 2D transform."""
from .. import gen

TECHNIQUE = 'metamorphic monitor (scaling, sign, constants, shifts, transposition, flips, padding) over observed executions'
NOTE = 'Sampled parameters, images and magnitudes; every relation is judged on every path of the observed outputs. No proof.'
RULE = 'seeded random (frontend, parameters, image, scale, shift); non-trivial = output not all zero'
ASSUMPTIONS = ['scales: 2**-500 .. 2**500 for NumPy in double precision, 2**-80 .. 2**80 for JAX and TensorFlow, 2**-46 .. 2**46 for PyTorch (its modulus squares, so more would leave the single-precision range)', 'flips and transposition hold up to the Nyquist asymmetry of the cropped filters (3e-3 of the path maximum plus 3e-4 of the input supremum)', 'positivity up to low-pass ringing']
REQUIRED = {'scaling': 200, 'extreme': 200, 'sign': 200, 'constant': 200, 'shift': 100, 'transpose': 50, 'flip': 100, 'pre_pad': 100, 'positivity': 200}
N = {'numpy': 8, 'torch': 3, 'tensorflow': 1, 'jax': 1, 'sklearn': 0, 'keras': 0}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('I02', tier, seed)
    n = 50 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs(['numpy', 'torch', 'tensorflow', 'jax'], ['2d']):
            if f in ('jax', 'tensorflow') and tier == 'quick' and i % 8:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, f != 'numpy')
                kw.update(out_type='list', pre_pad=bool(k % 2))
                yield dict(kind=f, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)), lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, refs
    f, d, kw = case['fe'], '2d', case['kw']
    rng = gen.rng_for('i', case['seed'])
    dt = 'float64' if f == 'numpy' else 'float32'
    J, L, (M, N_) = kw['J'], kw.get('L', 8), kw['shape']
    S = fe.build(f, d, kw)
    run = lambda v, S=S: fe.norm(fe.call(f, d, S, np.ascontiguousarray(v.astype(dt))))
    shape = case['lead'] + gen.in_shape2d(kw)
    x = gen.make(dict(case['sig'], shape=shape)).astype(dt).astype(float)
    if case['seed'] % 3 == 0:
        x = x + gen.signal('noise', shape, case['seed']).astype(dt)
    xs = float(np.abs(x).max())
    K = f + ':'
    prec = 'single'
    y = run(x)
    mon.state('config', [f, kw])
    hi = lambda s: [t for t in s if t[0]['n']]
    zero = lambda s: [t for t in s if not t[0]['n']]
    f64 = lambda s: [(p, v.astype(float)) for p, v in s]
    for a in (float(gen.pick(rng, [1e-12, 1e-9, 1e-6])), float(gen.pick(rng, [1e-3, .37, 3.0, 1e3, 1e6]))):
        a = max(a, 1e-9) if f != 'numpy' else a
        mon.event('scaling')
        if not cmp.outputs(mon, d, kw, [(p, v / a) for p, v in f64(run(a * x))], f64(y), xs, K + 'scaling', prec, detail='x * %g' % a):
            break
    if f == 'torch':
        e = int(rng.integers(30, 46))
    else:
        e = int(rng.integers(300, 500) if f == 'numpy' else rng.integers(50, 80))
    for e in (e, -e):
        mon.event('extreme')
        mon.state('exponent', e)
        if not cmp.outputs(mon, d, kw, [(p, np.ldexp(v, -e)) for p, v in f64(run(np.ldexp(x, e)))], f64(y), xs, K + 'extreme', prec, detail='x * 2**%d' % e):
            break
    mon.event('sign')
    z = run(-x)
    cmp.outputs(mon, d, kw, hi(z), hi(y), xs, K + 'sign', prec, detail='-x')
    cmp.outputs(mon, d, kw, [(p, -v) for p, v in zero(z)], zero(y), xs, K + 'sign0', prec, detail='-x, zeroth order')
    c = float(gen.pick(rng, [1.0, -0.5, 10.0, 100.0])) * (xs or 1.0)
    mon.event('constant')
    cmp.outputs(mon, d, kw, hi(run(x + c)), hi(y), xs + abs(c), K + 'constant', prec, detail='x + %g' % c)
    u = gen.signal('noise', shape, case['seed'], xs or 1.0)
    a, b = float(rng.standard_normal()), float(rng.standard_normal())
    comb = [(p, a * v + b * w) for (p, v), (_, w) in zip(f64(zero(y)), f64(zero(run(u))))]
    cmp.outputs(mon, d, kw, zero(run(a * x + b * u)), comb, (abs(a) + abs(b)) * (xs or 1.0) * 3, K + 'linear', prec, detail='zeroth order of a linear combination')
    mon.event('positivity')
    # an average with the low-pass filter is negative by at most its negative lobes times the largest modulus
    ref = refs.Cfg2D(**{k: v for k, v in kw.items() if k in ('J', 'shape', 'L', 'max_order', 'pre_pad')})
    lobes = max(float(np.maximum(-np.fft.ifft2(g).real, 0).sum()) for g in ref.phi_l)
    l1 = max(float(np.abs(np.fft.ifft2(ref.level(i, k))).sum()) for i, q in enumerate(ref.psi) for k in range(q['j'] + 1))
    for p, v in hi(y):
        mon.below(max(0.0, -float(v.min())), 1.1 * lobes * l1 ** len(p['n']) * xs + 1e-5 * xs, K + 'positivity', 'path %s' % (p['n'],))
    # padding done by the transform or by the caller
    P = 2 ** J
    Mp, Np = (M // P + 2) * P, (N_ // P + 2) * P
    if not kw['pre_pad'] and Mp - M < 2 * M and Np - N_ < 2 * N_:
        mon.event('pre_pad')
        S2 = fe.build(f, d, dict(kw, pre_pad=True))
        cmp.outputs(mon, d, kw, run(refs.reflect_pad2d(x, Mp, Np), S2), y, xs, K + 'pre_pad', prec, detail='explicit padding')
    if kw['pre_pad']:
        my, mx = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
        mon.event('shift')
        mon.state('shift', [J, my, mx])
        z = run(np.roll(x, (my * P, mx * P), (-2, -1)))
        for (p, A), (_, B) in zip(y, z):
            n, m = A.shape[-2:]
            A2, B2 = pad_circ(A), pad_circ(B)
            B2 = np.roll(B2, (-my, -mx), (-2, -1))
            ok = ~np.isnan(A2) & ~np.isnan(B2)
            if ok.any():
                mon.close(B2[ok], A2[ok].astype(float), K + 'shift', rtol=1e-4, atol=5e-6 * xs, detail='path %s shifted by (%d, %d) * 2^J' % (p['n'], my, mx))
            if mon.violations:
                return
        cc = int(L - L / 2 - 1)
        rel = [('flip', kw['shape'], lambda v: np.roll(v[..., ::-1, :], 1, -2), lambda t: (2 * cc - t) % L),
               ('flip', kw['shape'], lambda v: np.roll(v[..., ::-1], 1, -1), lambda t: (2 * cc - t) % L)]
        if L % 2 == 0:
            rel.append(('transpose', kw['shape'][::-1], lambda v: np.swapaxes(v, -1, -2), lambda t: (2 * cc - t - L // 2) % L))
        for name, sh, g, perm in rel:
            mon.event(name)
            S2 = S if name == 'flip' else fe.build(f, d, dict(kw, shape=sh))
            by = {p['n']: v for p, v in run(g(x), S2)}
            for p, A in y:
                n = tuple(k // L * L + perm(k % L) for k in p['n'])
                A2, B2 = pad_circ(A), pad_circ(by[n])
                B2 = g(B2)
                if not mon.check(A2.shape == B2.shape, K + name + ':shape', lambda: '%s vs %s' % (A2.shape, B2.shape)):
                    break
                ok = ~np.isnan(A2) & ~np.isnan(B2)
                if ok.any():
                    mon.below(np.abs(A2 - B2)[ok].max(), 3e-3 * np.abs(A).max() + 3e-4 * xs, K + name, 'path %s against %s' % (p['n'], n))
    mon.nontrivial |= any(np.any(v) for _, v in y)
    mon.sample = {'fe': f, 'kw': kw, 'paths': len(y)}


def pad_circ(a):
    """The output on the padded (periodic) grid, NaN where it was cropped."""
    import numpy as np
    w = [(0, 0)] * (a.ndim - 2) + [(1, 1), (1, 1)]
    return np.pad(a.astype(float), w, constant_values=np.nan)
