"""1D values against the independent reference."""
from .. import anyfe, gen

TECHNIQUE = 'differential value oracle (independent float64 reference) over randomized configurations and signals'
NOTE = 'Every coefficient of every 1D path of each observed execution is compared with an independent reference; sampled configurations and inputs, no proof. Trusts numpy/scipy FFT and the reference in kymon/refs.py.'
RULE = ('seeded random configurations (J, Q forms, T None/0/global/int/float, stride, oversampling, max_order, lengths odd/prime/2^k+-1) '
        'x signal kinds; every coefficient of every path compared in float64; non-trivial = reference output not all zero')
ASSUMPTIONS = ['numpy/scipy FFTs are correct to rounding', 'domain: 2^J <= N, 1 <= T <= N, stride <= 2^floor(log2 T)']
REQUIRED = {'path_compared': 500}
CORE = [
    dict(J=6, shape=1024, Q=8), dict(J=3, shape=37, Q=1), dict(J=5, shape=509, Q=[8, 2], T=100), dict(J=4, shape=100, Q=3, stride=1),
    dict(J=4, shape=129, Q=2, T=0, out_type='list'), dict(J=4, shape=129, Q=2, T='global'), dict(J=5, shape=256, Q=4, oversampling=2),
    dict(J=5, shape=256, Q=4, T=1), dict(J=5, shape=256, Q=4, T=2.5), dict(J=1, shape=17, Q=1), dict(J=6, shape=64, Q=1), dict(J=8, shape=256, Q=16),
    dict(J=6, shape=500, Q=[4], T=500, stride=4), dict(J=7, shape=200, Q=[5, 3], T=3, stride=2), dict(J=4, shape=64, Q=1, max_order=1),
    dict(J=3, shape=8, Q=1), dict(J=2, shape=7, Q=2), dict(J=9, shape=2048, Q=12, T=256, stride=16),
    dict(J=4, shape=100, Q=[1, 2]), dict(J=5, shape=300, Q=[1, 2], T='global'), dict(J=6, shape=300, Q=[1, 2], T=30, stride=2),
]


def cases(tier, seed):
    from .. import fe
    for i, kw in enumerate(CORE):
        for k in ('noise', 'impulses_edge', 'chirp'):
            yield dict(kind='core', kw=kw, sig=dict(kind=k, shape=[2, kw['shape']], seed=seed + i))
    n = 6000 if tier == 'quick' else 10 ** 9
    rng = gen.rng_for('S01', tier, seed)
    i = 0
    while i < n:
        hi = 512 if i % 5 else (2048 if tier == 'quick' else 8192)
        kw = gen.cfg1d(rng, lo=4, hi=hi, maxQ=16) if i % 12 else gen.big('1d', rng)
        if i % 12 and gen.cost1d(kw) > (900 if tier == 'quick' else 6000):
            continue
        i += 1
        f, prec, kw = anyfe.choose(rng, '1d', kw, i)
        yield dict(kind='random', fe=f, prec=prec, aff=fe.AFF[f], kw=kw, sig=gen.sigspec(rng, gen.lead(rng) + [kw['shape']]))


def run_case(case, mon):
    import numpy as np
    from .. import cmp, fe, refs
    kw = case['kw']
    x = anyfe.condition(gen.make(case['sig']), '1d', case.get('prec', 'double'))
    f, prec = case.get('fe', 'numpy'), case.get('prec', 'double')
    y, shaped = anyfe.evaluate(f, prec, '1d', kw, x)
    mon.event('frontend:%s:%s' % (f, prec))
    c = refs.Cfg1D(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k != 'out_type'})
    ref = refs.scattering1d(c, x)
    mon.state('resolution', [c.log2T, c.ls, c.Np, c.mode])
    if kw.get('out_type') != 'list':
        arr = shaped([len(ref), ref[0][2].shape[-1]])[0][1]
        if not mon.check(arr.shape[:-1] == x.shape[:-1] + (len(ref),), 'shape', lambda: '%s vs %d paths' % (arr.shape, len(ref))):
            return
        got = [(None, arr[..., i, :]) for i in range(len(ref))]
    else:
        got = [(p['n'], a) for p, a in y]
        if not mon.check([g[0] for g in got] == [r[0] for r in ref], 'paths', lambda: 'path lists differ: %s vs %s' % ([g[0] for g in got][:9], [r[0] for r in ref][:9])):
            return
    xs = float(np.abs(x).max())
    for (n, a), (rn, rj, r) in zip(got, ref):
        mon.event('path_compared')
        mon.event('coefficient_compared', int(r.size))
        mon.state('path_j', [len(rn), rj, c.ls])
        scale = xs * (c.Np if c.mode == 'global' else 1)
        if prec == 'single':
            cmp.close(mon, '1d', kw, a, r, xs, '%s:value:order%d:%s' % (f, len(rn), c.mode), 'single', 'path %s' % (rn,))
        else:
            mon.close(a, r, ('' if f == 'numpy' else f + ':') + 'value:order%d:%s' % (len(rn), c.mode), rtol=1e-9 if f != 'torch' else 5e-7, scale=scale, detail='path %s' % (rn,))
    if mon.sample is None:
        mon.sample = {'kw': kw, 'paths': len(ref), 'max': float(max(np.abs(r).max() for *_, r in ref))}
