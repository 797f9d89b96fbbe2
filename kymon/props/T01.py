"""Coherence of strides, oversampling and averaging modes."""
from .. import gen

TECHNIQUE = 'metamorphic monitor relating observed outputs under different strides and averaging modes'
NOTE = 'Sampled parameters and inputs; exact identities are judged bit for bit, subsampling relations at a tolerance about five times the largest aliasing measured. No proof.'
RULE = 'seeded random (transform, parameters, two strides, input); non-trivial = output not all zero'
ASSUMPTIONS = ['aliasing of the designed filters: 1% of the path maximum plus 3e-3 (1D) or 1e-4 (JTFS) of the input supremum']
REQUIRED = {'stride_pair': 200, 'exact_pair': 200, 'mode_judged': 100}


def cases(tier, seed):
    rng = gen.rng_for('T01', tier, seed)
    n = 700 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in ('1d', 'jtfs') if i % 3 else ('1d',):
            f = 'numpy' if i % 8 else 'torch'
            while True:
                kw = gen.fe_cfg('numpy', d, rng)
                if kw.get('T') not in (0, 'global'):
                    break
            kw['out_type'] = 'list'
            if d == 'jtfs':
                kw['format'] = 'joint'
            yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, seed=int(rng.integers(1 << 30)), lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs, cmp
    f, d, kw = case['fe'], case['dim'], dict(case['kw'])
    rng = gen.rng_for('t', case['seed'])
    x = gen.make(dict(case['sig'], shape=case['lead'] + [kw['shape']]), 'float64' if f == 'numpy' else 'float32')
    xs = float(np.abs(x).max())
    drop = ('stride', 'oversampling', 'stride_fr', 'out_type', 'format')
    rk = {('N' if k == 'shape' else k): v for k, v in kw.items() if k not in drop}
    dj = refs.CfgJTFS(**rk) if d == 'jtfs' else None
    c = dj.c if dj else refs.Cfg1D(**rk)
    run = lambda k: fe.norm(fe.call(f, d, fe.build(f, d, k), x))
    base = {k: v for k, v in kw.items() if k not in ('stride', 'oversampling')}
    prec = 'double' if f == 'numpy' else 'single'
    K = '%s:%s:' % (f, d)
    eps = 1e-3 if f == 'torch' else 0

    def subsample(ka, kb, a, b, axis, key):
        mon.event('stride_pair')
        ya, yb = run(ka), run(kb)
        if not mon.check([p['n'] for p, _ in ya] == [p['n'] for p, _ in yb], key + ':paths', 'paths depend on the stride'):
            return
        q = 2 ** (b - a)
        for (p, A), (_, B) in zip(ya, yb):
            o = len(p['n'])
            if axis == -2 and o == 0:
                mon.check(np.array_equal(A, B), key + ':zeroth', 'zeroth order depends on stride_fr')
                continue
            off = (-(-c.left // 2 ** b)) * q - (-(-c.left // 2 ** a)) if axis == -1 else 0
            A2 = np.take(A, range(off, A.shape[axis], q), axis=axis)
            n, m = A2.shape[axis], B.shape[axis]
            if not mon.check(abs(n - m) <= 1, key + ':length', lambda: '%s at stride 2^%d, %s at 2^%d' % (A.shape, a, B.shape, b)):
                return
            n = min(n, m)
            if n == 0:
                continue
            A2, B2 = np.take(A2, range(n), axis=axis), np.take(B, range(n), axis=axis)
            e, s = float(np.abs(A2 - B2).max()), float(np.abs(A).max())
            mon.nontrivial |= s > 0
            tol = (1e-12 if prec == 'double' else 1e-5) * xs if o == 0 else (.01 + eps) * s + (3e-3 if d == '1d' else 1e-4) * xs
            mon.event('value_compared', n)
            if not mon.check(e <= tol, key + ':%d' % min(o, 2), lambda: 'path %s, strides 2^%d and 2^%d: differ by %.3g (path max %.3g, tolerance %.3g)' % (p['n'], a, b, e, s, tol)):
                return

    if c.log2T >= 1:
        a = int(rng.integers(0, c.log2T)); b = int(rng.integers(a + 1, c.log2T + 1))
        mon.state('strides', [d, c.log2T, a, b])
        subsample(dict(base, stride=2 ** a), dict(base, stride=2 ** b), a, b, -1, K + 'stride')
    if dj and dj.mode_fr == 'local' and dj.log2F >= 1:
        a = int(rng.integers(0, dj.log2F)); b = int(rng.integers(a + 1, dj.log2F + 1))
        mon.state('strides_fr', [dj.log2F, a, b])
        subsample(dict(kw, stride_fr=2 ** a), dict(kw, stride_fr=2 ** b), a, b, -2, K + 'stride_fr')

    def exact(ka, kb, key):
        mon.event('exact_pair')
        cmp.identical(mon, run(ka), run(kb), K + 'exact:' + key, '%s vs %s' % (ka, kb))

    exact({k: v for k, v in base.items()}, dict(base, stride=2 ** c.log2T), 'stride_default')
    exact({k: v for k, v in base.items() if k != 'T'}, dict({k: v for k, v in base.items() if k != 'T'}, T=2 ** c.J), 'T_default')
    if d == '1d':
        k = int(rng.integers(0, c.log2T + 1))
        exact(dict(base, oversampling=k), dict(base, stride=2 ** (c.log2T - k)), 'oversampling')
        exact(dict(base, max_order=2), {k_: v for k_, v in base.items() if k_ != 'max_order'}, 'max_order_default')
    else:
        b2 = {k_: v for k_, v in kw.items() if k_ not in ('F', 'stride_fr')}
        exact(b2, dict(b2, F=2 ** dj.J_fr), 'F_default')
        if dj.mode_fr == 'local':
            b2 = {k_: v for k_, v in kw.items() if k_ != 'stride_fr'}
            exact(b2, dict(b2, stride_fr=2 ** dj.log2F), 'stride_fr_default')
        if 'Q_fr' not in kw:
            exact(kw, dict(kw, Q_fr=1), 'Q_fr_default')
    # equivalent writings of Q
    q = kw['Q'] if isinstance(kw['Q'], list) else [kw['Q']]
    if len(q) == 1 or q[1] == 1:
        exact(dict(kw, Q=q[0]), dict(kw, Q=[q[0]]), 'Q1')
        exact(dict(kw, Q=q[0]), dict(kw, Q=[q[0], 1]), 'Q2')
    # modes
    mon.event('mode_judged')
    k0, kg = dict(base, T=0), dict(base, T='global')
    y0, yg, yl = run(k0), run(kg), run(base)
    names = [p['n'] for p, _ in yl]
    mon.check([p['n'] for p, _ in y0] == names and [p['n'] for p, _ in yg] == names, K + 'mode:paths', 'paths depend on the averaging mode')
    r = len(case['lead'])
    rg = {len_n: v for len_n, v in zip([t[0] for t in refs.scattering1d(refs.Cfg1D(c.J, c.N, c.Q, 'global', None, c.max_order), x)],
                                       [t[2] for t in refs.scattering1d(refs.Cfg1D(c.J, c.N, c.Q, 'global', None, c.max_order), x)])} if d == '1d' else None
    for (p, A), (_, G) in zip(y0, yg):
        o = len(p['n'])
        mon.check(G.shape[-1] == 1, K + 'global:length', lambda: 'T=global: path %s has shape %s' % (p['n'], G.shape))
        if o == 0:
            mon.check(A.shape[r:] == (c.N,) and np.array_equal(A, x.astype(A.dtype)), K + 'T0:zeroth', 'T=0: zeroth order is not the signal')
        else:
            mon.check(bool((A >= 0).all()) or d == 'jtfs', K + 'T0:sign', lambda: 'T=0: path %s has values down to %g' % (p['n'], A.min()))
            if d == '1d':
                j = p['j'][-1]
                mon.equal(A.shape[-1], -(-(c.left + c.N) // 2 ** j) - -(-c.left // 2 ** j), K + 'T0:length', 'path %s' % (p['n'],))
        if rg is not None:
            cmp.close(mon, d, kg, G, rg[p['n']], xs, K + 'global:sum', prec, 'path %s' % (p['n'],))
        if mon.violations:
            return
    mon.sample = {'fe': f, 'dim': d, 'kw': kw}
