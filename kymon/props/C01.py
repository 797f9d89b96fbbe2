"""Agreement of the frontends and of the call styles of one object."""
from .. import gen

TECHNIQUE = 'differential monitor: the same call observed in all six frontends and all call styles'
NOTE = 'Sampled parameters and inputs; each observed output (structure, metadata, values) is compared with the NumPy one at single-precision tolerance, call styles bit for bit. No GPU.'
RULE = 'seeded random (frontend, transform, parameters, input, leading shape); non-trivial = NumPy output not all zero'
ASSUMPTIONS = ['Keras layers take neither shape, stride nor out_type; sklearn and Keras return arrays', 'parameters of the documented domain']
REQUIRED = {'compared:torch': 20, 'compared:jax': 5, 'compared:sklearn': 20, 'compared:tensorflow': 10, 'compared:keras': 5}
FAST = {'torch': 8, 'sklearn': 4, 'tensorflow': 5, 'keras': 3, 'jax': 2, 'numpy': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('C01', tier, seed)
    n = 26 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            for k in range(FAST[f]):
                if f == 'jax' and tier == 'quick' and i % 2:
                    continue
                kw = gen.fe_cfg(f, d, rng, gen.small_fe(f))
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], lead=gen.lead(rng, 2, 2) if f != 'keras' else [int(rng.integers(1, 4))],
                           sig=gen.sigspec(rng, [], amps=(1., 1., 1., 100., 1e-3)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    shape = case['lead'] + gen.in_shape(d, kw)
    x = gen.make(dict(case['sig'], shape=shape), 'float32')
    xs = float(np.abs(x).max())
    ref_obj = fe.build('numpy', d, kw)
    ref = fe.norm(ref_obj(x.astype(np.float64)))
    S = fe.build(f, d, kw)
    raw = fe.call(f, d, S, x)
    y = fe.norm(raw)
    if f == 'sklearn':
        b = len(case['lead'])
        r = ref[0][1]
        mon.check(y[0][1].shape == r.shape[:b] + (int(np.prod(r.shape[b:])),), 'sklearn:shape', lambda: '%s for NumPy output %s' % (y[0][1].shape, r.shape))
        if y[0][1].size == r.size:
            y = [(None, y[0][1].reshape(r.shape))]
    mon.event('compared:' + f)
    mon.event('values_compared', sum(a.size for _, a in ref))
    mon.state('pair', [f, d, kw.get('out_type'), kw.get('T'), kw.get('max_order')])
    cmp.outputs(mon, d, kw, y, ref, xs, 'values:%s:%s' % (f, d))
    # call styles
    styles = {}
    t = fe.to_fe(f, x)
    if f != 'sklearn':
        styles['scattering'] = lambda: S.scattering(t)
    if f in ('numpy', 'jax', 'tensorflow', 'torch', 'keras'):
        styles['call'] = lambda: S(t)
    if f == 'torch':
        styles['forward'] = lambda: S.forward(t)
    if f == 'keras':
        styles['keras_call'] = lambda: S.call(t)
    if f == 'sklearn':
        xf = x.reshape(tuple(case['lead']) + (-1,))
        styles['transform'] = lambda: S.transform(xf)
        styles['predict'] = lambda: S.predict(xf)
        yy = fe.norm(raw)
        z = fe.norm(S.scattering(x))
        mon.event('style')
        cmp.identical(mon, [(None, z[0][1].reshape(yy[0][1].shape))], yy, 'style:sklearn:scattering')
        y = yy
    else:
        y = fe.norm(raw)
    for name, fn in styles.items():
        mon.event('style')
        cmp.identical(mon, fe.norm(fn()), y, 'style:%s:%s' % (f, name))
    if f in ('tensorflow', 'keras', 'jax'):
        mon.event('style')
        cmp.outputs(mon, d, kw, fe.norm(S(x)), y, xs, 'style:%s:numpy_input' % f)
    if f in ('numpy', 'torch', 'jax', 'tensorflow') and d in ('1d', 'jtfs'):
        m, r = S.meta(), ref_obj.meta()
        mon.event('meta_compared')
        if mon.check(sorted(m) == sorted(r), 'meta:keys:%s' % f, lambda: '%s vs %s' % (sorted(m), sorted(r))):
            for k in r:
                mon.check(repr(cmp.plain(m[k])) == repr(cmp.plain(r[k])), 'meta:%s:%s' % (f, k), lambda: '%s: %s vs %s' % (k, str(m[k])[:200], str(r[k])[:200]))
        mon.check(S.output_size() == ref_obj.output_size() and S.output_size(detail=True) == ref_obj.output_size(detail=True), 'output_size:%s' % f,
                  lambda: '%s vs %s' % (S.output_size(detail=True), ref_obj.output_size(detail=True)))
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'paths': len(ref)}
