"""JTFS values against the independent reference."""
from .. import anyfe, gen

TECHNIQUE = 'differential value oracle (independent float64 reference) over randomized configurations and signals'
NOTE = 'Every coefficient of every JTFS path of each observed execution is compared with an independent reference; sampled configurations and inputs, no proof. Trusts numpy/scipy FFT and the reference in kymon/refs.py.'
RULE = ('seeded random (J, Q, J_fr, Q_fr, T/F modes and values, stride, stride_fr, format, out_type, lengths) x signals; every coefficient of every path '
        'compared in float64; non-trivial = reference output not all zero')
ASSUMPTIONS = ['numpy FFTs are correct to rounding', 'domain: floor(log2 F) <= J_fr (larger F is a known finding), F at most the number of log-frequency bins (J+1)*Q',
               'one frequential row beyond n1_max (as fixed by the existing tests) belongs to the joint list format']
REQUIRED = {'path_compared': 500}
CORE = [dict(J=6, shape=1024, Q=8, J_fr=3, format=f, out_type=o) for f in ('time', 'joint') for o in ('list', 'array')]
for _T, _s in ((None, None), (None, 1), (None, 4), (20, 2), ('global', None), (0, None)):
    for _F, _sf in ((None, None), (None, 1), (None, 2), (3, 2), ('global', None), (0, None)):
        kw = dict(J=5, shape=300, Q=4, J_fr=2, T=_T, stride=_s, F=_F, stride_fr=_sf)
        for _f in ('time', 'joint'):
            CORE.append(dict(kw, format=_f, out_type='list'))
CORE += [dict(J=6, shape=72, Q=[3, 2], J_fr=4, stride=2, F=1, format='joint', out_type='list'), dict(J=5, shape=64, Q=4, J_fr=4, F=1, format='time', out_type='array')]
BIGF = [dict(J=5, shape=256, Q=4, J_fr=1, F=4, format='joint', out_type='array'), dict(J=6, shape=256, Q=8, J_fr=2, F=16, format='time', out_type='list')]


def cases(tier, seed):
    from .. import fe
    for kw in BIGF:
        yield dict(kind='F_above_J_fr', kw=kw, sig=dict(kind='noise', shape=[kw['shape']], seed=seed))
    for i, kw in enumerate(CORE):
        for k in ('noise', 'chirp')[:1 + (i % 3 == 0)]:
            yield dict(kind='core', kw=kw, sig=dict(kind=k, shape=[2, kw['shape']], seed=seed + i))
    n = 2200 if tier == 'quick' else 10 ** 9
    rng = gen.rng_for('S04', tier, seed)
    for i in range(n):
        kw = gen.cfgjtfs(rng, lo=32, hi=512 if i % 5 else 2048) if i % 10 else gen.big('jtfs', rng, 1.5)
        f, prec, kw = anyfe.choose(rng, 'jtfs', kw, i)
        yield dict(kind='random', fe=f, prec=prec, aff=fe.AFF[f], kw=kw, sig=gen.sigspec(rng, gen.lead(rng, 2, 2) + [kw['shape']]))


def run_case(case, mon):
    import numpy as np
    from .. import cmp, fe, refs
    kw = case['kw']
    x = anyfe.condition(gen.make(case['sig']), 'jtfs', case.get('prec', 'double'))
    f, prec = case.get('fe', 'numpy'), case.get('prec', 'double')
    y, shaped = anyfe.evaluate(f, prec, 'jtfs', kw, x)
    mon.event('frontend:%s:%s' % (f, prec))
    d = refs.CfgJTFS(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k not in ('out_type', 'format')})
    ref = refs.jtfs(d, x)
    fmt, ot = kw.get('format', 'time'), kw.get('out_type', 'array')
    flat = []
    for p in ref:
        if p['order'] == 0:
            if not (fmt == 'joint' and ot == 'array'):
                flat.append(((), p['coef'], 0))
            continue
        if fmt == 'time':
            for i, n1 in enumerate(range(0, p['n1max'], p['n1_stride'])):
                flat.append(((n1,) + p['n'], p['coef'][..., i, :], p['order']))
        elif ot == 'array':
            flat.append((p['n'], p['coef'], p['order']))
        else:
            flat.append((p['n'], p['coef'][..., :1 + p['n1max'] // p['n1_stride'], :], p['order']))
    flat.sort(key=lambda t: (t[2], t[0]))
    mon.state('config', [d.c.mode, d.mode_fr, d.c.ls, d.c.log2T, d.lsf, d.log2F, d.J_fr, fmt, ot])
    if ot == 'array':
        arr = shaped((len(flat),) + flat[0][1].shape[x.ndim - 1:])[0][1]
        k = -2 if fmt == 'time' else -3
        nl = 2 if fmt == 'time' else 3
        if not mon.check(arr.shape[:arr.ndim - nl] == x.shape[:-1] and arr.shape[k] == len(flat), 'shape', lambda: '%s vs %d paths' % (arr.shape, len(flat))):
            return
        got = [np.take(arr, i, axis=k) for i in range(len(flat))]
    else:
        if not mon.check([p['n'] for p, a in y] == [r[0] for r in flat], 'paths', lambda: 'path lists differ: %s vs %s' % ([p['n'] for p, a in y][:12], [r[0] for r in flat][:12])):
            return
        got = [a for p, a in y]
    xs = float(np.abs(x).max())
    for a, (n, r, o) in zip(got, flat):
        mon.event('path_compared')
        mon.event('coefficient_compared', int(r.size))
        scale = xs * (d.c.Np if d.c.mode == 'global' else 1) * (d.Nf if d.mode_fr == 'global' else 1)
        key = ('' if f == 'numpy' else f + ':') + 'value:order%d:%s:%s' % (o, d.c.mode, d.mode_fr)
        if prec == 'single':
            cmp.close(mon, 'jtfs', kw, a, r, xs, key, 'single', 'path %s' % (n,))
        else:
            mon.close(a, r, key, rtol=5e-7, scale=scale, detail='path %s' % (n,))
    mon.sample = {'kw': kw, 'paths': len(flat), 'max': float(max(np.abs(r[1]).max() for r in flat))}
