"""3D values against the independent reference."""
from .. import anyfe, gen

TECHNIQUE = 'differential value oracle (independent float64 reference) over randomized configurations and signals'
NOTE = 'Every coefficient of every 3D path of each observed execution is compared with an independent reference; sampled configurations and inputs, no proof. Trusts numpy/scipy FFT and the reference in kymon/refs.py.'
RULE = ('seeded random (J, L, grids even/odd/anisotropic, sigma_0, max_order, rotation_covariant, powers) x volumes; every coefficient compared '
        'with a float64 reference; non-trivial = reference output not all zero')
ASSUMPTIONS = ['scipy.special.sph_harm is correct', 'filters are single precision: agreement judged at 1e-4 of the path maximum plus a floor for roots of tiny moduli']
REQUIRED = {'path_compared': 300}
CORE = [dict(J=2, shape=[12, 12, 12]), dict(J=1, shape=[5, 7, 9], L=2), dict(J=0, shape=[6, 6, 6], L=1), dict(J=2, shape=[8, 10, 6], L=3, sigma_0=0.8),
        dict(J=1, shape=[7, 7, 7], L=4, rotation_covariant=False), dict(J=3, shape=[9, 8, 8], L=1, max_order=1), dict(J=2, shape=[8, 8, 8], L=0, integral_powers=[1.0, 2.0]),
        dict(J=1, shape=[8, 8, 8], L=5, integral_powers=[0.5])]


def cases(tier, seed):
    from .. import fe
    for i, kw in enumerate(CORE):
        for k in ('noise', 'impulse', 'burst'):
            yield dict(kind='core', kw=kw, sig=dict(kind=k, shape=[2] + kw['shape'], seed=seed + i))
    n = 6000 if tier == 'quick' else 10 ** 9
    rng = gen.rng_for('S03', tier, seed)
    for i in range(n):
        kw = gen.cfg3d(rng, hi=11 if i % 5 else 16, maxJ=2 if i % 4 else 3, maxL=3 if i % 4 else 5) if i % 10 else gen.big('3d', rng)
        f, prec, kw = anyfe.choose(rng, '3d', kw, i)
        yield dict(kind='random', fe=f, prec=prec, aff=fe.AFF[f], kw=kw, sig=gen.sigspec(rng, gen.lead(rng, 2, 2) + kw['shape'], amps=(1., 1., 100., 1e-3)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs
    kw = case['kw']
    x = anyfe.condition(gen.make(case['sig']), '3d', case.get('prec', 'double'))
    f, prec = case.get('fe', 'numpy'), case.get('prec', 'double')
    y, shaped = anyfe.evaluate(f, prec, '3d', kw, x)
    mon.event('frontend:%s:%s' % (f, prec))
    c = refs.Cfg3D(**fe.kwargs(kw))
    ref = refs.scattering3d(c, x)
    mon.state('config', kw)
    y = shaped(ref.shape[-3:])[0][1]
    if not mon.check(y.shape == ref.shape, 'shape', lambda: '%s vs %s' % (y.shape, ref.shape)):
        return
    xs = float(np.abs(x).max())
    nvox = float(np.prod(kw['shape']))
    for p in range(ref.shape[-3]):
        for l in range(ref.shape[-2]):
            for i, q in enumerate(c.q):
                mon.event('path_compared')
                r = ref[..., p, l, i]
                # an error of e in the modulus changes u**q by q u^(q-1) e (q>=1) or at most e**q (q<1)
                e = 3e-6 * xs
                floor = nvox * (e ** q if q < 1 else e * q * max(xs, 1e-300) ** (q - 1)) * (0.05 if 0.4 < q < 1 else 1.0)
                mon.close(y[..., p, l, i], r, ('' if f == 'numpy' else f + ':') + 'value:rc%d' % c.rc, rtol=1e-4, atol=floor, detail='path %d degree %d power %g' % (p, l, q))
    mon.sample = {'kw': kw, 'shape': list(ref.shape), 'max': float(np.abs(ref).max())}
