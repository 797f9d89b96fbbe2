"""scikit-learn estimator contract."""
from .. import gen

TECHNIQUE = 'model-based monitor: random histories of estimator operations judged against NumPy objects built from the parameters in force'
NOTE = 'Sampled parameters and histories; Pipeline, FeatureUnion, ParameterGrid and GridSearchCV of the installed scikit-learn. No proof.'
RULE = 'seeded random (transform, parameters, history); non-trivial = some feature vector compared is not all zero'
ASSUMPTIONS = ['scikit-learn 1.5']
REQUIRED = {'transform': 2000, 'clone': 200, 'set_params': 200, 'get_params': 500, 'pipeline': 100, 'union': 50, 'grid': 50, 'search': 5, 'refused': 50}
OPS = ['transform', 'transform', 'predict', 'fit', 'fit_transform', 'fit_predict', 'clone', 'set_params', 'set_params', 'set_all', 'get_params', 'pipeline', 'union', 'grid', 'bad_name', 'set_none', 'repr', 'leading', 'channels', 'no_args_fit']


def cases(tier, seed):
    rng = gen.rng_for('M02', tier, seed)
    n = 220 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in ('1d', '2d', '3d', 'jtfs'):
            cfgs = [gen.fe_cfg('sklearn', d, rng, True) for _ in range(3)]
            yield dict(kind=d, dim=d, cfgs=cfgs, seed=int(rng.integers(1 << 30)), ops=[gen.pick(rng, OPS) for _ in range(int(rng.integers(3, 10)))])
        if i % 20 == 0:
            d = gen.pick(rng, ['1d', '2d', '3d', 'jtfs'])
            kw = {'1d': dict(J=2, shape=32), '2d': dict(J=1, shape=[8, 8], L=2), '3d': dict(J=1, shape=[6, 6, 6], L=1), 'jtfs': dict(J=3, J_fr=1, Q=1, shape=32)}[d]
            yield dict(kind='search:' + d, dim=d, cfgs=[kw], search=True, seed=int(rng.integers(1 << 30)))


DEFAULTS = {
    '1d': dict(J=None, shape=None, Q=1, T=None, stride=None, max_order=2, oversampling=0, out_type='array'),
    '2d': dict(J=None, shape=None, L=8, max_order=2, pre_pad=False, out_type='array'),
    '3d': dict(J=None, shape=None, L=3, sigma_0=1, max_order=2, rotation_covariant=True, method='integral', points=None, integral_powers=(.5, 1., 2.)),
    'jtfs': dict(J=None, J_fr=None, Q=None, shape=None, T=None, stride=None, Q_fr=1, F=None, stride_fr=None, out_type='array', format='time')}


def same_value(k, a, b):
    if k in ('shape', 'Q_fr'):
        t = lambda v: tuple(v) if isinstance(v, (tuple, list)) else (v,)
        return t(a) == t(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return tuple(a) == tuple(b)
    return type(a) == type(b) and a == b or (not isinstance(a, (str, bool)) and not isinstance(b, (str, bool)) and a is not None and b is not None and a == b)


def run_case(case, mon):
    import numpy as np
    from sklearn.base import clone, BaseEstimator
    from sklearn.pipeline import Pipeline, FeatureUnion, make_pipeline
    from sklearn.model_selection import ParameterGrid
    from .. import fe
    d = case['dim']
    K = d + ':'
    rng = gen.rng_for('k', case['seed'])
    kw = case['cfgs'][0]
    mon.state('config', [d, kw])
    if case.get('search'):
        return search(case, mon, d, kw, K)
    S = fe.build('sklearn', d, kw)
    inputs, numpy_out = {}, {}

    def data(kw):
        key = str(sorted(kw.items()))
        if key not in inputs:
            ish = gen.in_shape(d, kw)
            inputs[key] = gen.signal('noise', [3] + ish, case['seed'])
            N = fe.build('numpy', d, kw)
            numpy_out[key] = np.stack([np.asarray(N(x)).reshape(-1) for x in inputs[key]])
        return inputs[key].reshape(3, -1), numpy_out[key]

    def features(y, want, what):
        mon.event('transform')
        if not mon.check(isinstance(y, np.ndarray), K + 'type', lambda: '%s returns %s' % (what, type(y))):
            return
        if mon.check(y.shape == want.shape, K + 'shape', lambda: '%s has shape %s, expected %s; %s after %s' % (what, y.shape, want.shape, kw, done)):
            # per-sample NumPy transforms, so rounding may differ between batches
            mon.close(y, want, K + 'value', rtol=1e-10 if d in ('1d', 'jtfs') else 1e-5, atol=1e-13, detail='%s of %s after %s' % (what, kw, done))

    def params(est, what):
        mon.event('get_params')
        p = est.get_params()
        for k, v in DEFAULTS[d].items():
            v = fe.kwargs(kw).get(k, v)
            if mon.check(k in p, K + 'get_params', lambda: '%s: parameter %s not reported' % (what, k)):
                mon.check(same_value(k, p[k], v), K + 'get_params', lambda: '%s: %s is %r, given %r' % (what, k, p[k], v))
    done = []
    for op in case['ops'] + ['transform']:
        done.append(op)
        mon.event('op:' + op)
        X, Y = data(kw)
        xc = X.copy()
        if op in ('transform', 'predict'):
            features(getattr(S, op)(X), Y, op)
        elif op == 'fit':
            mon.check(S.fit(X) is S and S.fit(X, np.zeros(3)) is S, K + 'fit', 'fit does not return the object')
            params(S, 'after fit')
        elif op == 'no_args_fit':
            mon.check(S.fit() is S, K + 'fit', 'fit() does not return the object')
        elif op == 'fit_transform':
            features(S.fit_transform(X), Y, op)
        elif op == 'fit_predict':
            features(S.fit(X[:1]).predict(X), Y, op)
        elif op == 'leading':
            lead = gen.pick(rng, [(), (1,), (3,), (1, 3), (3, 1), (1, 1, 3)])
            if lead == ():
                features(S.transform(X[0]), Y[0], 'one sample without batch dimension')
            elif 3 in lead:
                features(S.transform(X.reshape(lead + (-1,))), Y.reshape(lead + (-1,)), 'leading shape %s' % (lead,))
            else:
                features(S.predict(X[:1]), Y[:1], 'leading shape (1,)')
        elif op == 'channels':
            # a sample of several signals
            c = gen.pick(rng, [3, 3, 2])
            X2, Y2 = (X[None].reshape(1, -1), Y.reshape(1, -1)) if c == 3 else (np.concatenate([X[:2], X[1:]], 1), np.concatenate([Y[:2], Y[1:]], 1))
            features(S.transform(X2), Y2, '%d signals per sample' % c)
        elif op == 'clone':
            mon.event('clone')
            C = clone(S)
            mon.check(C is not S and type(C) is type(S), K + 'clone', 'clone returns %s' % type(C))
            params(C, 'clone')
            features(C.transform(X), Y, 'clone')
            S = C if gen.chance(rng, .5) else S
        elif op in ('set_params', 'set_all'):
            mon.event('set_params')
            new = dict(gen.pick(rng, case['cfgs']))
            if op == 'set_params' and d != 'jtfs':
                # one parameter that is valid whatever the others are
                k = gen.pick(rng, {'1d': ['max_order'], '2d': ['max_order', 'L', 'pre_pad'], '3d': ['max_order', 'L', 'J', 'rotation_covariant', 'integral_powers', 'sigma_0']}[d])
                new = dict(kw, **{k: new.get(k, DEFAULTS[d][k])})
                r = S.set_params(**fe.kwargs({k: new[k]}))
            else:
                r = S.set_params(**fe.kwargs({**{k: v for k, v in DEFAULTS[d].items() if v is not None or k in ('T', 'F', 'stride', 'stride_fr')}, **new}))
            kw = new
            mon.check(r is S, K + 'set_params', 'set_params does not return the object')
            params(S, 'after set_params')
            X, Y = data(kw)
            features(S.transform(X), Y, 'after set_params')
            xc = X.copy()
        elif op == 'set_none':
            mon.check(S.set_params() is S, K + 'set_params', 'set_params() does not return the object')
            params(S, 'after set_params()')
        elif op == 'get_params':
            params(S, 'get_params')
            mon.check(S.get_params(deep=False).keys() == S.get_params(deep=True).keys(), K + 'get_params', 'deep differs')
            features(type(S)(**S.get_params()).transform(X), Y, 'object rebuilt from get_params()')
        elif op == 'bad_name':
            mon.event('refused')
            try:
                S.set_params(no_such_parameter=1)
                mon.violate(K + 'set_params', 'an unknown parameter is accepted')
            except ValueError:
                pass
            params(S, 'after a refused set_params')
        elif op == 'repr':
            mon.check(type(S).__name__ in repr(S) and str(kw['J']) in repr(S), K + 'repr', lambda: repr(S)[:200])
        elif op == 'pipeline':
            mon.event('pipeline')
            P = Pipeline([('id', 'passthrough'), ('scat', S)]) if gen.chance(rng, .5) else Pipeline([('scat', S), ('last', 'passthrough')])
            features(P.fit_transform(X), Y, 'Pipeline.fit_transform')
            features(clone(P).fit(X).transform(X), Y, 'cloned Pipeline')
            mo = 1 if d != 'jtfs' else None
            if mo:
                P2 = clone(P).set_params(scat__max_order=mo)
                features(P2.fit(X).transform(X), data(dict(kw, max_order=1))[1], 'Pipeline with scat__max_order=1')
            features(S.transform(X), Y, 'original after use in a Pipeline')
        elif op == 'union':
            mon.event('union')
            U = FeatureUnion([('a', S), ('b', clone(S))])
            features(U.fit_transform(X), np.concatenate([Y, Y], -1), 'FeatureUnion')
        elif op == 'grid':
            mon.event('grid')
            if d == 'jtfs':
                grid, P = ParameterGrid({'scat__format': ['time']}), Pipeline([('scat', clone(S))])
            else:
                grid, P = ParameterGrid({'scat__max_order': [1, 2]}), Pipeline([('scat', clone(S))])
            for g in grid:
                k2 = dict(kw, **{k[6:]: v for k, v in g.items()})
                features(clone(P).set_params(**g).fit_transform(X), data(k2)[1], 'grid point %s' % g)
        mon.check(np.array_equal(X, xc), K + 'input', '%s modified its input' % op)
        if mon.violations:
            return
    mon.state('history', done)
    mon.sample = {'dim': d, 'parameters': kw, 'history': done}


def search(case, mon, d, kw, K):
    import numpy as np
    from sklearn.linear_model import Ridge
    from sklearn.pipeline import Pipeline
    from sklearn.model_selection import GridSearchCV, KFold
    from .. import fe
    mon.event('search')
    rng = gen.rng_for('s', case['seed'])
    ish = gen.in_shape(d, kw)
    X = gen.signal('noise', [12] + ish, case['seed']).reshape(12, -1)
    y = rng.standard_normal(12)
    grid = {'1d': {'scat__J': [1, 2, 3], 'scat__Q': [1, 2]}, '2d': {'scat__L': [1, 3], 'scat__J': [1, 2]},
            '3d': {'scat__J': [0, 1], 'scat__integral_powers': [(1.,), (.5, 2.)]}, 'jtfs': {'scat__J': [3, 4], 'scat__F': [None, 'global']}}[d]
    G = GridSearchCV(Pipeline([('scat', fe.build('sklearn', d, kw)), ('r', Ridge())]), grid, cv=KFold(3), error_score='raise').fit(X, y)
    for p, s in zip(G.cv_results_['params'], G.cv_results_['mean_test_score']):
        k2 = {**kw, **{k[6:]: v for k, v in p.items()}}
        N = fe.build('numpy', d, k2)
        Z = np.asarray(N(X.reshape([12] + ish))).reshape(12, -1)
        want = np.mean([Ridge().fit(Z[a], y[a]).score(Z[b], y[b]) for a, b in KFold(3).split(Z)])
        mon.check(abs(s - want) <= 1e-5 * max(1, abs(want)), K + 'grid_search', lambda: 'score %r at %s, expected %r' % (s, p, want))
        mon.event('grid')
        mon.nontrivial = True
