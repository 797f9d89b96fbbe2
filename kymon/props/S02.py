"""2D values against the independent reference."""
from .. import anyfe, gen

TECHNIQUE = 'differential value oracle (independent float64 reference) over randomized configurations and signals'
NOTE = 'Every coefficient of every 2D path of each observed execution is compared with an independent reference; sampled configurations and inputs, no proof. Trusts numpy/scipy FFT and the reference in kymon/refs.py.'
RULE = ('seeded random (J, L, rectangular/odd/minimal shapes, max_order, pre_pad, out_type) x image kinds; every pixel of every path compared '
        'with a float64 reference; non-trivial = reference output not all zero')
ASSUMPTIONS = ['numpy FFTs are correct to rounding', 'filters are stored in single precision, so agreement is judged at 1.2e-4 of the input sup norm (also covers the 3.1415 used for pi in the normalisation)']
REQUIRED = {'path_compared': 500}
CORE = [dict(J=2, shape=[32, 32]), dict(J=3, shape=[33, 40], L=6), dict(J=1, shape=[5, 7], L=4), dict(J=3, shape=[8, 8], L=8), dict(J=2, shape=[16, 21], L=3, pre_pad=True),
        dict(J=4, shape=[32, 48], L=2), dict(J=2, shape=[64, 16], L=1), dict(J=3, shape=[24, 24], L=5, max_order=1), dict(J=1, shape=[2, 2], L=8), dict(J=2, shape=[4, 30], L=4),
        dict(J=4, shape=[16, 40], L=4, pre_pad=True, out_type='list'), dict(J=2, shape=[12, 4], L=7), dict(J=2, shape=[5, 4], L=16), dict(J=3, shape=[8, 9], L=12)]


def cases(tier, seed):
    from .. import fe
    for i, kw in enumerate(CORE):
        for k in ('noise', 'impulses_edge', 'impulse'):
            yield dict(kind='core', kw=kw, sig=dict(kind=k, shape=[2] + gen.in_shape2d(kw), seed=seed + i))
    n = 1500 if tier == 'quick' else 10 ** 9
    rng = gen.rng_for('S02', tier, seed)
    for i in range(n):
        kw = gen.cfg2d(rng, hi=32 if i % 6 else 64, maxJ=3 if tier == 'quick' or i % 8 else 4) if i % 20 else gen.big('2d', rng)
        f, prec, kw = anyfe.choose(rng, '2d', kw, i)
        yield dict(kind='random', fe=f, prec=prec, aff=fe.AFF[f], kw=kw, sig=gen.sigspec(rng, gen.lead(rng, 2, 2) + gen.in_shape2d(kw)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs
    kw = case['kw']
    x = anyfe.condition(gen.make(case['sig']), '2d', case.get('prec', 'double'))
    f, prec = case.get('fe', 'numpy'), case.get('prec', 'double')
    y, shaped = anyfe.evaluate(f, prec, '2d', kw, x)
    mon.event('frontend:%s:%s' % (f, prec))
    c = refs.Cfg2D(kw['J'], tuple(kw['shape']), kw.get('L', 8), kw.get('max_order', 2), kw.get('pre_pad', False))
    ref = refs.scattering2d(c, x)
    mon.state('config', kw)
    if kw.get('out_type') != 'list':
        arr = shaped((len(ref),) + ref[0][2].shape[-2:])[0][1]
        if not mon.check(arr.ndim == x.ndim + 1 and arr.shape[:-2] == x.shape[:-2] + (len(ref),), 'shape', lambda: '%s vs %d paths' % (arr.shape, len(ref))):
            return
        got = [arr[..., i, :, :] for i in range(len(ref))]
    else:
        if not mon.check([p['n'] for p, a in y] == [r[0] for r in ref], 'paths', lambda: 'path lists differ: %s' % [p['n'] for p, a in y][:9]):
            return
        got = [a for p, a in y]
    xs = float(np.abs(x).max())
    for a, (n, j, r) in zip(got, ref):
        mon.event('path_compared')
        mon.event('coefficient_compared', int(r.size))
        mon.state('path_j', [j, kw['J']])
        mon.close(a, r, ('' if f == 'numpy' else f + ':') + 'value:order%d' % len(n), rtol=1.2e-4 if f == 'numpy' else 1.4e-4, scale=xs, detail='path %s j %s' % (n, j))
    mon.sample = {'kw': kw, 'paths': len(ref), 'max': float(max(np.abs(r).max() for *_, r in ref))}
