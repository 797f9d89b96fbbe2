"""Batch independence and leading shapes."""
from .. import gen

TECHNIQUE = 'metamorphic monitor over batched executions (slices, permutations, hostile co-batched elements)'
NOTE = 'Sampled frontends, parameters, leading shapes and co-batched data; each slice is compared with the transform of that element alone. No proof.'
RULE = 'seeded random (frontend, transform, parameters, leading shape of rank 0..4, hostile companions); non-trivial = output not all zero'
ASSUMPTIONS = ['finite inputs; batched and single FFTs may differ by rounding']
REQUIRED = {'slice_compared': 300, 'hostile_companion': 100, 'mixed_magnitudes': 100, 'permutation': 50, 'batch_over_256': 20}
N = {'numpy': 8, 'torch': 5, 'sklearn': 3, 'tensorflow': 3, 'keras': 2, 'jax': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('B01', tier, seed)
    n = 26 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            if f == 'jax' and tier == 'quick' and i % 3:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, small=True)
                s = int(rng.integers(8))
                if s == 0:
                    lead = []
                elif s == 1 and f in ('numpy', 'torch', 'sklearn'):
                    lead = [int(gen.pick(rng, [33, 64, 65, 70, 130]))]
                elif s < 5:
                    lead = [int(rng.integers(1, 5))]
                else:
                    lead = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(2, 5)))]
                if f == 'keras' and not lead:
                    lead = [2]
                if gen.large(d, kw):
                    lead = lead and [3]
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], lead=lead, seed=int(rng.integers(1 << 30)), sk=gen.pick(rng, gen.KINDS))
            if i % 3 == 0 and f not in ('jax', 'keras'):
                # more elements than any plausible chunk or block size
                kw = gen.tiny(d, rng)
                if f == 'sklearn':
                    kw.pop('out_type', None)
                lead = gen.pick(rng, [[257], [300], [513], [1030], [2100], [5, 103], [260, 2]])
                if d == 'jtfs':
                    lead = gen.pick(rng, [[257], [300], [513], [2, 130]])
                if f == 'tensorflow':
                    lead = lead[:1] if lead[0] > 200 else lead
                    lead = [min(v, 300) for v in lead]
                yield dict(kind='many:' + f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], lead=lead, seed=int(rng.integers(1 << 30)), sk=gen.pick(rng, gen.KINDS))


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    lead, ish = tuple(case['lead']), gen.in_shape(d, kw)
    rng = gen.rng_for('b', case['seed'])
    dt = 'float64' if f in ('numpy', 'sklearn') else 'float32'
    prec = 'double' if dt == 'float64' and d in ('1d', 'jtfs') else 'single'
    x = gen.signal(case['sk'], list(lead) + ish, case['seed'], 1.0, dt)
    S = fe.build(f, d, kw)
    y = fe.norm(fe.call(f, d, S, x))
    mon.state('lead', [f, d, list(lead)])
    if int(np.prod(lead)) > 256:
        mon.event('batch_over_256')
    for _, a in y:
        mon.check(a.shape[:len(lead)] == lead, 'lead:%s:%s' % (f, d), lambda: 'output %s for leading shape %s' % (a.shape, lead))
    single = fe.norm(fe.call(f, d, S, x[(0,) * len(lead)] if f != 'keras' else x[(0,) * len(lead)][None]))
    one = 1 if f == 'keras' else 0
    for (_, a), (_, b) in zip(y, single):
        mon.check(a.shape[len(lead):] == b.shape[one:], 'kept:%s:%s' % (f, d), lambda: 'batched %s, single %s' % (a.shape, b.shape))
    if mon.violations:
        return
    idx = [tuple(int(rng.integers(n)) for n in lead) for _ in range(3)] + [tuple(n - 1 for n in lead)]
    kw2 = dict(kw)

    def compare(got, want, ix, xs, key, detail):
        for (p, a), (_, b) in zip(got, want):
            mon.event('value_compared', a.size)
            if f == 'sklearn':
                # flattened features: judged against the overall maximum
                if d == '3d':
                    q = list(kw.get('integral_powers', (0.5, 1.0, 2.0)))
                    a, b = a.reshape(-1, len(q)), b.reshape(-1, len(q))
                    if not cmp.close(mon, d, kw2, a, b, xs, key, prec, detail):
                        return
                elif not mon.close(a, b, key, rtol=cmp.EPS[prec][0], atol=float(np.max(cmp.atol(d, kw, xs, prec))), detail=detail):
                    return
            elif not cmp.close(mon, d, kw2, a, b, xs, key, prec, detail):
                return

    for ix in idx:
        e = x[ix]
        alone = fe.norm(fe.call(f, d, S, e[None] if f == 'keras' else e))
        if f == 'keras':
            alone = [(p, a[0]) for p, a in alone]
        mon.event('slice_compared')
        compare([(p, a[ix]) for p, a in y], alone, ix, float(np.abs(e).max()), 'slice:%s:%s' % (f, d), 'element %s of %s' % (ix, lead))
    if lead and int(np.prod(lead)) > 1:
        ix = idx[0]
        keep = x[ix].copy()
        for scale in (1e6, 0.0, 1.0):
            z = (gen.signal('noise', list(lead) + ish, case['seed'] + 1, 1.0, dt) * scale).astype(dt)
            z[ix] = keep
            mon.event('hostile_companion')
            w = fe.norm(fe.call(f, d, S, z))
            compare([(p, a[ix]) for p, a in w], [(p, a[ix]) for p, a in y], ix, float(np.abs(keep).max()), 'companion:%s:%s' % (f, d), 'element %s, companions x%g' % (ix, scale))
        # elements of very different magnitudes, each judged at its own scale
        top = 40 if d != '3d' else min(40, int(100 // max(kw.get('integral_powers', (0.5, 1.0, 2.0)))))
        exps = rng.integers(-top, top + 1, size=lead)
        exps.reshape(-1)[:2] = rng.permutation([-top, top])
        base = gen.signal('noise', list(lead) + ish, case['seed'] + 2, 1.0, 'float32')
        big = np.ldexp(base, exps.reshape(exps.shape + (1,) * len(ish)))
        big = big.astype(gen.pick(rng, ['float32', dt]))
        w = fe.norm(fe.call(f, d, S, big))
        for ix in {tuple(int(v) for v in np.unravel_index(i, lead)) for i in (0, 1, int(rng.integers(int(np.prod(lead)))))}:
            e = big[ix]
            alone = fe.norm(fe.call(f, d, S, e[None] if f == 'keras' else e))
            if f == 'keras':
                alone = [(p, a[0]) for p, a in alone]
            mon.event('mixed_magnitudes')
            mon.state('exponent', int(exps[ix]))
            compare([(p, a[ix]) for p, a in w], alone, ix, float(np.abs(e).max()), 'mixed:%s:%s' % (f, d), 'element %s of magnitude 2**%d' % (ix, exps[ix]))
        ax = int(rng.integers(len(lead)))
        perm = rng.permutation(lead[ax])
        mon.event('permutation')
        w = fe.norm(fe.call(f, d, S, np.ascontiguousarray(np.take(x, perm, axis=ax))))
        compare(w, [(p, np.take(a, perm, axis=ax)) for p, a in y], None, float(np.abs(x).max()), 'permutation:%s:%s' % (f, d), 'axis %d' % ax)
        # the same elements under another leading shape
        flat = x.reshape([-1] + ish)
        w = fe.norm(fe.call(f, d, S, flat))
        mon.event('reshaped')
        compare([(p, a.reshape(lead + a.shape[1:])) for p, a in w], y, None, float(np.abs(x).max()), 'reshape:%s:%s' % (f, d), 'flattened batch')
    mon.sample = {'fe': f, 'dim': d, 'lead': list(lead), 'kw': kw}
