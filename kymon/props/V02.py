"""Rejection of invalid parameters; resolution of valid ones."""
import math
from .. import gen

TECHNIQUE = 'fault injection with an error-type monitor over constructors and first calls; read-back monitor of resolved parameters; bitwise comparison of positional and keyword construction'
NOTE = 'Sampled parameters; about sixty ways to leave the domain, with values drawn around the boundaries. No proof.'
RULE = 'seeded random (frontend, transform, valid parameters, one parameter moved outside its domain, or none); non-trivial = the outputs are not all zero'
ASSUMPTIONS = ['arguments of another type than documented (such as J or T as strings) are only covered where the code documents a check', 'a rejection may come at the first call, as the run-time checks do']
REQUIRED = {'rejected': 20000, 'valid_config': 500, 'readback': 5000, 'positional': 300, 'boundary_accepted': 500}
PER = {'numpy': 8, 'torch': 4, 'sklearn': 4, 'tensorflow': 2, 'jax': 1, 'keras': 2}

SIG = {
    '1d': [('J', None), ('shape', None), ('Q', 1), ('T', None), ('stride', None), ('max_order', 2), ('oversampling', 0), ('out_type', 'array'), ('backend', 0)],
    '2d': [('J', None), ('shape', None), ('L', 8), ('max_order', 2), ('pre_pad', False), ('backend', 0), ('out_type', 'array')],
    '3d': [('J', None), ('shape', None), ('L', 3), ('sigma_0', 1), ('max_order', 2), ('rotation_covariant', True), ('method', 'integral'), ('points', None), ('integral_powers', [0.5, 1., 2.]), ('backend', 0)],
    'jtfs': [('J', None), ('J_fr', None), ('Q', None), ('shape', None), ('T', None), ('stride', None), ('Q_fr', 1), ('F', None), ('stride_fr', None), ('out_type', 'array'), ('format', 'time'), ('backend', 0)],
}


def signature(f, d):
    """Documented order of the parameters, with their defaults."""
    if f == 'keras':
        return {'1d': [('J', None), ('Q', 1), ('T', None), ('max_order', 2), ('oversampling', 0)], '2d': [('J', None), ('L', 8), ('max_order', 2), ('pre_pad', False)]}[d]
    s = list(SIG[d])
    if f == 'tensorflow':
        if d == '2d':
            s = s[:6] + [('name', 'z')] + s[6:]
        elif d == 'jtfs':
            s = s[:10] + [s[11], s[10], ('name', 'z')]
        else:
            s = s + [('name', 'z')]
    return [(k, ('numpy' if f == 'sklearn' else f) if k == 'backend' else v) for k, v in s]


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('V02', tier, seed)
    n = 18 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            for k in range(PER[f]):
                if tier == 'quick' and (f in ('jax', 'keras') and i % 4 or f == 'tensorflow' and i % 2):
                    continue
                for mode in ('invalid', 'valid'):
                    kw = gen.fe_cfg(f, d, rng, True)
                    if f in ('jax', 'keras') and mode == 'valid' and i % 3:
                        continue
                    if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                        kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                    yield dict(kind='%s:%s:%s' % (f, d, mode), mode=mode, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


def not_pow2(rng, hi):
    v = [k for k in range(3, max(8, hi)) if k & (k - 1)]
    return int(gen.pick(rng, v))


def wrong(f, d, kw, rng):
    """(name, parameters outside the domain) from valid ones."""
    import numpy as np

    def m(name, drop=(), **new):
        c = {k: v for k, v in kw.items() if k not in drop}
        c.update(new)
        return name, c
    r = lambda a, b: int(rng.integers(a, b + 1))
    if d in ('1d', 'jtfs'):
        N, J = kw['shape'], kw['J']
        st = ('stride', 'oversampling')
        q1 = r(1, 4)
        for q in (0, -r(1, 5), [0], [0, 1], [q1, 0], [-q1, 1], [q1, -r(1, 3)], [q1, 1, 1], [q1] * r(3, 6), 0.5, float(q1) + .5):
            yield m('Q=%s' % (q,), Q=q)
        if d == '1d':
            yield m('max_order=0', max_order=0)
            yield m('max_order<0', max_order=-r(1, 3))
            yield m('max_order>2', max_order=r(3, 6))
        for T in (N + 1, N + r(2, 1000), 2 * N, N + .1, float(N) * (1 + 1e-6), -1, -r(2, 100), -.5, .5, .999, 1e-3, float(rng.uniform(1e-6, .9999)), 1 - 1e-9):
            yield m('T=%r' % T, st, T=T)
        yield m('2^J>N', st + ('T',), J=int(math.floor(math.log2(N))) + r(1, 3))
        T = kw.get('T')
        if f != 'keras':
            if T in (0, 'global'):
                for s in (1, 2, 2 ** r(0, J)):
                    yield m('stride=%d with T=%s' % (s, T), st, stride=s)
            else:
                Tv = 2 ** J if T is None else T
                l = int(math.floor(math.log2(Tv)))
                for s in (0, -1, -2 ** r(1, 5), not_pow2(rng, N), 3, 2 ** (l + 1), 2 ** (l + r(2, 4)), 1.5, 2.5, float(not_pow2(rng, N))):
                    yield m('stride=%r' % s, st, stride=s)
                if d == '1d':
                    s = 2 ** r(0, l)
                    o = r(1, l + 2)
                    if s * 2 ** o != 2 ** l:
                        yield m('oversampling=%d with stride=%d' % (o, s), st, stride=s, oversampling=o)
                    yield m('oversampling>log2_T', st, oversampling=l + r(1, 4))
        if d == '1d':
            for o in (-1, -r(2, 9), 1.5, .5):
                yield m('oversampling=%s' % o, st, oversampling=o)
        if f in ('keras',):
            return
        for s in ([N, 1], [1, N], [N, N], float(N), str(N), None, 0, -r(1, N)):
            yield m('shape=%r' % (s,), shape=s)
        if f != 'sklearn':
            yield m('array without averaging', st, T=0, out_type='array')
        for o in ('foo', None, 'Array', 'arrays', 'tensor', '', 'lis'):
            yield m('out_type=%r' % o, out_type=o)
    if d == 'jtfs':
        Q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
        n = (kw['J'] + 1) * Q
        for q in (0, -r(1, 4), [0], [1, 1], [-r(1, 3)], 1.5, .5):
            yield m('Q_fr=%s' % (q,), Q_fr=q)
        for F in (n + 1, n + r(2, 100), n + .5, -1, -r(2, 9), .5, .999, float(rng.uniform(1e-6, .9999))):
            yield m('F=%r' % F, ('stride_fr',), F=F)
        F = kw.get('F')
        if F in (0, 'global'):
            yield m('stride_fr with F=%s' % F, stride_fr=2 ** r(0, 3))
        else:
            for s in (0, -1, -2 ** r(1, 4), 3, not_pow2(rng, 40), 1.5, 2.5):
                yield m('stride_fr=%r' % s, stride_fr=s)
        for o in ('foo', None, 'Time', 'joint ', 'time-frequency', ''):
            yield m('format=%r' % o, format=o)
        if f != 'sklearn':
            yield m('joint array without frequential averaging', ('stride_fr',), F=0, format='joint', out_type='array')
    if d == '2d':
        M, N = (20, 20) if f == 'keras' else kw['shape']
        yield m('2^J>min', J=int(math.floor(math.log2(min(M, N)))) + r(1, 2))
        if f != 'keras':
            a = 2 ** kw['J']
            yield m('M<2^J', shape=[a - 1, a + r(0, 8)])
            yield m('N<2^J', shape=[a + r(0, 8), a - 1])
            for o in ('foo', 'Array', ''):
                yield m('out_type=%r' % o, out_type=o)
            for s in ([M], [M, N, M], []):
                yield m('shape=%r' % (s,), shape=s)
        for o in (0, -1, 3, r(4, 9)):
            yield m('max_order=%d' % o, max_order=o)
    if d == '3d':
        for s in (kw['shape'][:2], kw['shape'] + [4], kw['shape'][:1], []):
            yield m('shape=%r' % (s,), shape=s)
        for o in (0, -1, 3, r(4, 9)):
            yield m('max_order=%d' % o, max_order=o)
        for o in ('foo', 'Integral', '', 'integrals', 'global', None):
            yield m('method=%r' % (o,), method=o)
    if f != 'keras':
        for b in ('foo', 'Numpy', '', '%s_bad' % f, f + ' ', 'numpy' if f not in ('numpy', 'sklearn') else 'torch', 'jax' if f in ('numpy', 'sklearn', 'torch', 'tensorflow') else 'torch'):
            yield m('backend=%r' % b, backend=b)


def resolved(f, d, kw):
    """Documented resolved values of the public attributes."""
    out = {}
    out['J'] = kw['J']
    if d in ('1d', 'jtfs'):
        Q = kw.get('Q', 1)
        Q = (Q, 1) if isinstance(Q, int) else (tuple(Q) + (1,))[:2]
        T = kw.get('T')
        out['Q'] = Q
        out['average'] = {'global': 'global', 0: False}.get(T, 'local') if T is not None else 'local'
        out['T'] = 2 ** kw['J'] if T in (None, 0, 'global') else T
        out['log2_T'] = int(math.floor(math.log2(out['T'])))
        st = kw.get('stride')
        if st is None:
            st = 2 ** (out['log2_T'] - (kw.get('oversampling') or 0)) if out['average'] == 'local' else 2 ** out['log2_T']
        out['stride'] = st
        out['log2_stride'] = int(math.log2(st))
        out['shape'] = (kw['shape'],)
        out['max_order'] = kw.get('max_order', 2)
        out['out_type'] = kw.get('out_type', 'array')
    if d == '1d':
        out['oversampling'] = kw.get('oversampling', 0)
    if d == 'jtfs':
        out['J_fr'] = kw['J_fr']
        q = kw.get('Q_fr', 1)
        out['Q_fr'] = (q,) if isinstance(q, int) else tuple(q)
        F = kw.get('F')
        out['average_fr'] = {'global': 'global', 0: False}.get(F, 'local') if F is not None else 'local'
        out['F'] = 2 ** kw['J_fr'] if F in (None, 0, 'global') else F
        out['log2_F'] = int(math.floor(math.log2(out['F'])))
        out['stride_fr'] = kw.get('stride_fr') or 2 ** out['log2_F']
        out['log2_stride_fr'] = int(math.log2(out['stride_fr']))
        out['format'] = kw.get('format', 'time')
    if d == '2d':
        out.update(L=kw.get('L', 8), max_order=kw.get('max_order', 2), pre_pad=kw.get('pre_pad', False))
        if f != 'keras':
            out.update(shape=tuple(kw['shape']), M=kw['shape'][0], N=kw['shape'][1], out_type=kw.get('out_type', 'array'))
    if d == '3d':
        M, N, O = kw['shape']
        out.update(shape=(M, N, O), M=M, N=N, O=O, L=kw.get('L', 3), sigma_0=kw.get('sigma_0', 1), max_order=kw.get('max_order', 2), rotation_covariant=kw.get('rotation_covariant', True),
                   method=kw.get('method', 'integral'), integral_powers=tuple(kw.get('integral_powers', (0.5, 1., 2.))))
    if f == 'keras':
        keep = {'1d': ('J', 'Q', 'T', 'max_order', 'oversampling'), '2d': ('J', 'L', 'max_order', 'pre_pad')}[d]
        out = {k: v for k, v in out.items() if k in keep}
    return out


def readback(mon, K, f, d, S, kw, built=True):
    for k, v in resolved(f, d, kw).items():
        if not built and k == 'T':
            continue
        mon.event('readback')
        try:
            got = getattr(S, k)
        except Exception as e:
            mon.violate(K + 'readback:' + k, '%s(%s).%s raises %s: %s' % (d, kw, k, type(e).__name__, e))
            continue
        if isinstance(got, list):
            got = tuple(got)
        ok = got == v and isinstance(got, str) == isinstance(v, str) and isinstance(got, tuple) == isinstance(v, tuple)
        mon.check(ok, K + 'readback:' + k, lambda: '%s(%s).%s is %r, expected %r' % (d, kw, k, got, v))


def boundary(f, d, kw, rng):
    """Extreme values inside the domain."""
    r = lambda a, b: int(rng.integers(a, b + 1))
    c = {k: v for k, v in kw.items() if k not in ('stride', 'oversampling')}
    if d in ('1d', 'jtfs'):
        N = kw['shape']
        c.pop('out_type', None)
        if f == 'sklearn' or f == 'keras' or kw.get('format') == 'joint' and kw.get('F') == 0:
            c.pop('F', None)
            c.pop('stride_fr', None)
        for T in (1, 1., N, float(N)):
            yield dict(c, T=T)
        T = gen.pick(rng, [1, N, r(1, N)])
        if f != 'keras':
            l = int(math.floor(math.log2(T)))
            yield dict(c, T=T, stride=2 ** l)
            yield dict(c, T=T, stride=1)
            if d == '1d':
                yield dict(c, T=T, oversampling=l)
        if d == '1d':
            c.pop('T', None)
            yield dict(c, J=int(math.floor(math.log2(N))), Q=1)
            yield dict(c, J=1, Q=[1])
    elif d == '2d' and f != 'keras':
        a = 2 ** kw['J']
        yield dict(kw, shape=[a, a])
        yield dict(kw, shape=[a, a + r(0, 5)])
        yield dict(kw, L=1)
    elif d == '3d':
        yield dict(kw, J=0, L=0)
        yield dict(kw, max_order=1)


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('p', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])

    def sig(c, base=None):
        try:
            ish = gen.in_shape(d, c)
            assert all(isinstance(n, int) and n > 0 for n in ish) and len(ish) == fe.NDIM[d]
        except Exception:
            ish = gen.in_shape(d, base or kw)
        return gen.signal('noise', [2] + ish, int(rng.integers(1 << 30))).astype('float32')

    if case['mode'] == 'invalid':
        bad = list(wrong(f, d, kw, rng))
        bad = [bad[int(i)] for i in rng.permutation(len(bad))]
        if f in ('jax', 'tensorflow', 'keras'):
            bad = bad[:25]
        for name, c in bad:
            at = 'construction'
            try:
                S = fe.build(f, d, c)
                at = 'first call'
                x = sig(c)
                if f == 'keras' and name == '2^J>min':
                    x = x[:, :min(20, x.shape[1]), :min(20, x.shape[2])]
                y = fe.call(f, d, S, x)
            except (ValueError, RuntimeError, NotImplementedError, ImportError) as e:
                mon.event('rejected')
                mon.event('rejected_at:' + at)
                mon.state('message', [name.split('=')[0], str(e)[:30]])
            except Exception as e:
                mon.violate(K + 'error_type', '%s in %s: %s at %s: %s' % (name, c, type(e).__name__, at, str(e)[:200]))
            else:
                mon.violate(K + 'accepted:' + name.split('=')[0], '%s in %s accepted; output %s' % (name, c, getattr(y, 'shape', type(y))))
            mon.checks += 1
            if mon.violations:
                return
        mon.nontrivial = True
        mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'invalid': len(bad)}
        return

    # valid parameters: attributes, positional construction, boundaries
    x = sig(kw)
    S = fe.build(f, d, kw)
    mon.event('valid_config')
    # a Keras layer learns the signal length, which bounds T, from its first input
    readback(mon, K, f, d, S, kw, built=f != 'keras')
    y = fe.norm(fe.call(f, d, S, x))
    mon.nontrivial = any(np.any(a) for _, a in y)
    readback(mon, K + 'after:', f, d, S, kw)
    order = signature(f, d)
    k = len(order) if gen.chance(rng, .5) else int(rng.integers(2, len(order) + 1))
    args, rest = [], dict(kw)
    for name, default in order[:k]:
        v = rest.pop(name, default)
        args.append(tuple(v) if isinstance(v, list) else v)
    if f == 'keras':
        rest = {a: b for a, b in rest.items() if a not in ('shape', 'out_type')}
    P = fe.cls(f, d)(*args, **fe.kwargs(rest))
    mon.event('positional')
    cmp.identical(mon, fe.norm(fe.call(f, d, P, x)), y, K + 'positional', 'positional construction %s %s' % (args, rest))
    readback(mon, K + 'positional:', f, d, P, kw)
    # defaults given explicitly change nothing
    full = dict(kw)
    for name, default in order:
        if name not in full and (f != 'keras' or name not in ('shape', 'out_type')):
            full[name] = default
    E = fe.build(f, d, full)
    cmp.identical(mon, fe.norm(fe.call(f, d, E, x)), y, K + 'defaults', 'defaults given explicitly %s' % full)
    mon.event('defaults')
    if d in ('1d', 'jtfs') and f != 'keras':
        G = fe.build(f, d, dict(kw, shape=[kw['shape']]))
        readback(mon, K + '1-tuple:', f, d, G, kw)
        cmp.identical(mon, fe.norm(fe.call(f, d, G, x)), y, K + 'tuple', 'shape given as a 1-tuple')
    b = list(boundary(f, d, kw, rng))
    if f in ('jax', 'keras', 'tensorflow'):
        b = [b[int(i)] for i in rng.permutation(len(b))[:1]]
    for c in b:
        S = fe.build(f, d, c)
        mon.event('boundary_accepted')
        readback(mon, K + 'boundary:', f, d, S, c, built=f != 'keras')
        if f in ('numpy', 'torch', 'sklearn') and gen.chance(rng, .5):
            z = fe.norm(fe.call(f, d, S, sig(c)))
            mon.check(all(np.isfinite(a).all() for _, a in z), K + 'boundary:finite', 'non-finite output for %s' % c)
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'positional': k}
