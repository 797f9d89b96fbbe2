"""Structure of 1D/2D/3D outputs, metadata and sizes."""
from .. import gen

TECHNIQUE = 'structural monitor over observed outputs, metadata and sizes'
NOTE = 'Sampled parameters and inputs in all frontends; array, list, dict outputs, metadata and sizes of each observed object are cross-checked and compared with the path enumeration of the specification.'
RULE = 'seeded random (frontend, transform, parameters, input); non-trivial = output not all zero'
ASSUMPTIONS = ['numbering of the filters as in the filter banks exposed by the objects']
REQUIRED = {'object_judged': 200, 'meta_judged': 50}
N = {'numpy': 20, 'torch': 4, 'tensorflow': 2, 'jax': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('O01', tier, seed)
    n = 24 if tier == 'quick' else 10 ** 9
    for i in range(n):
        if i % 4 == 0:
            # many more filters, scales and angles than usual
            for f, d in gen.pairs(['numpy', 'torch', 'tensorflow'], ['1d', '2d', '3d']):
                kw = gen.big(d, rng, .5)
                kw.pop('out_type', None)
                if kw.get('T') == 0:
                    kw.pop('T')
                yield dict(kind='big:' + f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], lead=gen.lead(rng, 1, 2), sig=gen.sigspec(rng, [], amps=(1.,)))
        for f, d in gen.pairs(['numpy', 'torch', 'tensorflow', 'jax'], ['1d', '2d', '3d']):
            if f == 'jax' and tier == 'quick' and i % 4:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, f != 'numpy')
                kw.pop('out_type', None)
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], lead=gen.lead(rng, 2, 2), sig=gen.sigspec(rng, [], amps=(1.,)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    x = gen.make(dict(case['sig'], shape=case['lead'] + gen.in_shape(d, kw)), 'float32')
    lead = tuple(case['lead'])
    r = len(lead)
    K = '%s:' % f
    mon.event('object_judged')
    mon.state('config', [f, d, kw])
    if d == '3d':
        J, L = kw['J'], kw['L']
        y = fe.run(f, d, fe.build(f, d, kw), x)[0]
        mon.nontrivial = bool(np.any(y))
        nq = len(kw.get('integral_powers', (0.5, 1.0, 2.0)))
        P1, P2 = J + 1, (J + 1) * J // 2
        want = lead + (P1 + (P2 if kw['max_order'] == 2 else 0), L + 1, nq)
        if not mon.check(y.shape == want, K + '3d:shape', lambda: '%s, expected %s' % (y.shape, want)):
            return
        # first orders of max_order 1 and 2 agree; the exponents and degrees are independent of each other
        xs = float(np.abs(x).max())
        y1 = fe.run(f, d, fe.build(f, d, dict(kw, max_order=1)), x)[0]
        cmp.close(mon, d, kw, y[..., :P1, :, :], y1, xs, K + '3d:prefix', 'single', 'first order of max_order 2 vs 1')
        if nq > 1:
            q = list(kw.get('integral_powers', (0.5, 1.0, 2.0)))
            kr = dict(kw, integral_powers=q[::-1])
            yr = fe.run(f, d, fe.build(f, d, kr), x)[0]
            cmp.close(mon, d, kw, yr[..., ::-1], y, xs, K + '3d:powers', 'single', 'reversed powers')
        if L > 0:
            kl = dict(kw, L=L - 1)
            yl = fe.run(f, d, fe.build(f, d, kl), x)[0]
            cmp.close(mon, d, kl, yl, y[..., :L, :], xs, K + '3d:degrees', 'single', 'L-1 against L')
        if J > 0:
            # scales are independent of the number of scales
            kj = dict(kw, J=J - 1)
            yj = fe.run(f, d, fe.build(f, d, kj), x)[0]
            cmp.close(mon, d, kj, yj[..., :J, :, :], y[..., :J, :, :], xs, K + '3d:scales', 'single', 'J-1 against J')
            if kw['max_order'] == 2:
                # second-order paths in the order (j1, j2), j2 > j1
                p = [(a, b) for a in range(J + 1) for b in range(a + 1, J + 1)]
                pj = [(a, b) for a in range(J) for b in range(a + 1, J)]
                sel = [P1 + p.index(t) for t in pj]
                cmp.close(mon, d, kj, yj[..., J:, :, :], y[..., sel, :, :], xs, K + '3d:order2', 'single', 'second-order paths of J-1 within J')
        return
    outs = {}
    kinds = ['list'] + (['array'] if kw.get('T') != 0 else []) + (['dict'] if d == '1d' else [])
    objs = {}
    for o in kinds:
        S = objs[o] = fe.build(f, d, dict(kw, out_type=o))
        raw = fe.call(f, d, S, x)
        outs[o] = raw if o == 'dict' else fe.norm(raw)
    lst = outs['list']
    mon.nontrivial = any(np.any(a) for _, a in lst)
    keys = [p['n'] for p, _ in lst]
    orders = [len(k) for k in keys]
    mon.check(len(set(keys)) == len(keys), K + d + ':unique', lambda: 'repeated paths in %s' % keys[:30])
    mon.check(all(isinstance(k, tuple) for k in keys), K + d + ':tuple', 'path index is not a tuple')
    mon.check(orders == sorted(orders), K + d + ':order_sorted', lambda: str(orders))
    if 'array' in outs:
        arr = outs['array'][0][1]
        ax = len(lead)
        if mon.check(arr.shape == lead + (len(lst),) + lst[0][1].shape[r:], K + d + ':array_shape', lambda: '%s for %d paths of shape %s' % (arr.shape, len(lst), lst[0][1].shape)):
            mon.same(arr, np.stack([a for _, a in lst], axis=ax), K + d + ':stack', 'array vs stacked list')
    if 'dict' in outs:
        mon.event('dict_judged')
        if mon.check(set(outs['dict']) == set(keys) and len(outs['dict']) == len(keys), K + d + ':dict_keys', lambda: '%s' % list(outs['dict'])[:20]):
            for p, a in lst:
                mon.same(fe.to_np(outs['dict'][p['n']]), a, K + d + ':dict', 'path %s' % (p['n'],))
    o1 = fe.norm(fe.call(f, d, fe.build(f, d, dict(kw, out_type='list', max_order=1)), x))
    m = [i for i, o in enumerate(orders) if o <= 1]
    mon.event('prefix_judged')
    if mon.check([p['n'] for p, _ in o1] == [keys[i] for i in m], K + d + ':prefix_paths', lambda: '%d paths at max_order 1, %d here' % (len(o1), len(m))):
        for (p, a), i in zip(o1, m):
            if not mon.same(a, lst[i][1], K + d + ':prefix', 'path %s' % (p['n'],)):
                break
    S = objs['list']
    if d == '2d':
        J, L = kw['J'], kw.get('L', 8)
        first = [(i,) for i in range(J * L)]
        second = [(a, b) for a in range(J * L) for b in range(J * L) if b // L > a // L] if kw.get('max_order', 2) == 2 else []
        mon.check(keys == [()] + first + second, K + '2d:paths', lambda: 'paths %s' % keys[:30])
        for p, a in lst:
            mon.check(tuple(p['j']) == tuple(n // L for n in p['n']), K + '2d:j', lambda: '%s has j %s' % (p['n'], p['j']))
            mon.check(tuple(p['theta']) == tuple(n % L for n in p['n']), K + '2d:theta', lambda: '%s has theta %s' % (p['n'], p['theta']))
        M, N_ = kw['shape']
        P = 2 ** J
        want = (M // P, N_ // P)
        mon.check(all(a.shape == lead + want for _, a in lst), K + '2d:size', lambda: '%s, expected %s' % (lst[0][1].shape, want))
        return
    c = refs.Cfg1D(**{('N' if k == 'shape' else k): v for k, v in kw.items()})
    psi = (S.psi1_f, S.psi2_f)
    want = [()]
    if c.max_order >= 1:
        want += [(i,) for i in range(len(psi[0]))]
    if c.max_order >= 2:
        want += [(a, b) for a in range(len(psi[0])) for b in range(len(psi[1])) if psi[1][b]['j'] > psi[0][a]['j']]
    mon.check(keys == want, K + '1d:paths', lambda: 'paths %s, expected %s' % (keys[:20], want[:20]))
    for p, a in lst:
        mon.check(p['j'] == tuple(psi[o][n]['j'] for o, n in enumerate(p['n'])), K + '1d:j', lambda: str(p))
        mon.check(p.get('order', len(p['n'])) == len(p['n']), K + '1d:order', lambda: str(p))
        if c.mode == 'global':
            n = 1
        else:
            res = c.ls if c.mode else (p['j'][-1] if p['j'] else 0)
            n = -(-(c.left + c.N) // 2 ** res) - -(-c.left // 2 ** res)
            lo = c.N / 2 ** res
            mon.check(lo - 1 < a.shape[-1] < lo + 1, K + '1d:length_bound', lambda: '%d samples for N=%d stride 2^%d' % (a.shape[-1], c.N, res))
        mon.check(a.shape == lead + (n,), K + '1d:length', lambda: 'path %s: %s, expected %d' % (p['n'], a.shape, n))
    for o in kinds:
        meta = objs[o].meta()
        mon.event('meta_judged')
        mon.check([tuple(k) for k in meta['key']] == keys, K + '1d:meta_key', lambda: '%s... vs %s...' % (meta['key'][:8], keys[:8]))
        mon.check(list(meta['order']) == orders, K + '1d:meta_order', lambda: str(meta['order']))
        for name in ('n', 'j', 'xi', 'sigma'):
            t = np.asarray(meta[name], float)
            if not mon.check(t.shape == (len(keys), c.max_order), K + '1d:meta_shape', lambda: '%s %s' % (name, t.shape)):
                continue
            w = np.full(t.shape, np.nan)
            for i, k in enumerate(keys):
                for o_, n in enumerate(k):
                    w[i, o_] = n if name == 'n' else psi[o_][n][name]
            mon.check(np.array_equal(t, w, equal_nan=True), K + '1d:meta_' + name, lambda: 'row %d: %s vs %s' % (
                int(np.argwhere(~((t == w) | (np.isnan(t) & np.isnan(w))))[0][0]), t[0], w[0]))
        mon.equal(objs[o].output_size(), len(keys), K + '1d:output_size', 'output_size')
        det = objs[o].output_size(detail=True)
        mon.equal(tuple(det), tuple(orders.count(i) for i in range(max(orders) + 1)), K + '1d:output_size_detail', 'output_size(detail=True)')
    mon.sample = {'fe': f, 'kw': kw, 'paths': len(keys)}
