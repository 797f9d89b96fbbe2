"""TensorFlow graph mode and Keras."""
from .. import gen

TECHNIQUE = 'differential monitor: eager execution observed against graph execution (static and unknown batch), Keras layers and models'
NOTE = 'Sampled parameters and inputs, random order of eager and graph calls on one object. No XLA compilation, no GPU.'
RULE = 'seeded random (transform, parameters, batch shape, execution mode or layer operation); non-trivial = eager output not all zero'
ASSUMPTIONS = ['single precision: graph and eager kernels may round differently', 'Keras layers infer the shape at their first call']
REQUIRED = {'graph_call': 100, 'unknown_batch': 40, 'keras_call': 60, 'keras_symbolic': 20, 'keras_config': 20, 'keras_fit': 4}


def cases(tier, seed):
    rng = gen.rng_for('M03', tier, seed)
    n = 60 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in ('1d', '2d', '3d', 'jtfs'):
            if d == 'jtfs' and tier == 'quick' and i % 2:
                continue
            while True:
                kw = gen.fe_cfg('tensorflow', d, rng, True)
                if d in ('1d', 'jtfs') and gen.cost1d(kw) > (40 if d == '1d' else 16):
                    continue
                break
            yield dict(kind='tf:' + d, aff='tf', dim=d, kw=kw, seed=int(rng.integers(1 << 30)))
        for d in ('1d', '2d'):
            while True:
                kw = gen.fe_cfg('keras', d, rng, True)
                if d == '1d' and gen.cost1d(kw) > 40:
                    continue
                break
            yield dict(kind='keras:' + d, aff='tf', dim=d, kw=kw, seed=int(rng.integers(1 << 30)))


def run_case(case, mon):
    (run_keras if case['kind'].startswith('keras') else run_tf)(case, mon)


def run_tf(case, mon):
    import numpy as np
    import tensorflow as tf
    from .. import fe, cmp
    d, kw = case['dim'], case['kw']
    rng = gen.rng_for('t', case['seed'])
    ish = gen.in_shape(d, kw)
    K = d + ':'
    mon.state('config', [d, kw])
    S = fe.build('tensorflow', d, kw)
    inp = lambda lead: gen.signal(gen.pick(rng, ['noise', 'burst', 'sparse']), list(lead) + ish, int(rng.integers(1 << 30))).astype('float32')
    E = fe.build('tensorflow', d, kw)  # only ever called eagerly
    metas = []

    def wrapped(v):
        y = S(v)
        if isinstance(y, list):
            metas.append([{k: w for k, w in p.items() if k != 'coef'} for p in y])
            return [p['coef'] for p in y]
        return [y]

    def judge(out, x, what):
        ref = fe.norm(E(tf.constant(x)))
        mon.event('graph_call')
        got = [(r[0], np.asarray(o)) for o, r in zip(out, ref)]
        mon.check(len(out) == len(ref), K + 'paths', what)
        if metas:
            mon.check([cmp.meta_of(m) for m in metas[-1]] == [cmp.meta_of(m) for m, _ in ref], K + 'meta', lambda: '%s: metadata differ' % what)
        cmp.outputs(mon, d, kw, got, ref, float(np.abs(x).max()), K + 'graph', detail=what)
    if gen.chance(rng, .5):
        S(tf.constant(inp([2])))
    mode = gen.pick(rng, ['static', 'batch', 'batch', 'rank2', 'module', 'grad', 'map'])
    mon.event('mode:' + mode)
    if mode == 'static':
        fn = tf.function(wrapped)
        for lead in ([2], [], [3], [2, 1]):
            x = inp(lead)
            judge(fn(tf.constant(x)), x, 'tf.function traced for leading shape %s' % (lead,))
    elif mode in ('batch', 'rank2'):
        u = [None] if mode == 'batch' else [None, None]
        fn = tf.function(wrapped, input_signature=[tf.TensorSpec(u + ish, tf.float32)])
        for lead in ([1], [4], [2]):
            lead = lead if mode == 'batch' else lead + [int(rng.integers(1, 3))]
            x = inp(lead)
            mon.event('unknown_batch')
            judge(fn(tf.constant(x)), x, 'tf.function with unknown batch, called with %s' % (lead,))
    elif mode == 'module':
        class M(tf.Module):
            def __init__(self):
                super().__init__()
                self.s = S

            @tf.function
            def __call__(self, v):
                return wrapped(v)
        m = M()
        for lead in ([2], [1]):
            x = inp(lead)
            judge(m(tf.constant(x)), x, 'inside a tf.Module')
        mon.check(len(m.trainable_variables) == 0, K + 'variables', 'the transform has trainable variables')
    elif mode == 'map':
        x = inp([3])
        sig = [tf.float32] * len(fe.norm(E(tf.constant(x[0]))))
        out = tf.function(lambda t: tf.map_fn(lambda v: wrapped(v), t, fn_output_signature=sig))(tf.constant(x))
        # elements are transformed one by one
        judge(out, x, 'inside tf.map_fn')
    else:
        w = None
        x = inp([2])
        t = tf.constant(x)

        def loss(v):
            return sum(tf.reduce_sum(o * o) for o in wrapped(v))

        def g(v):
            with tf.GradientTape() as tape:
                tape.watch(v)
                l = loss(v)
            return tape.gradient(l, v)
        ge, gg = g(t).numpy(), tf.function(g)(t).numpy()
        mon.event('graph_gradient')
        if np.isfinite(ge).all():
            mon.close(gg, ge, K + 'gradient', rtol=2e-3, atol=1e-6, detail='gradient in graph mode against eager')
        judge(tf.function(wrapped)(t), x, 'graph call after gradients')
    # the object is still usable eagerly
    x = inp([2])
    metas.clear()
    y = fe.norm(S(tf.constant(x)))
    cmp.outputs(mon, d, kw, y, fe.norm(E(tf.constant(x))), float(np.abs(x).max()), K + 'eager_after', detail='eager call after %s' % mode)
    if hasattr(S, 'trainable_variables'):
        mon.check(len(S.trainable_variables) == 0, K + 'variables', 'the transform has trainable variables')
    mon.sample = {'dim': d, 'kw': kw, 'mode': mode}


def run_keras(case, mon):
    import numpy as np
    import keras
    import tensorflow as tf
    from .. import fe, cmp
    d, kw = case['dim'], case['kw']
    rng = gen.rng_for('k', case['seed'])
    ish = gen.in_shape(d, kw)
    K = 'keras:%s:' % d
    mon.state('config', ['keras', d, kw])
    E = fe.build('tensorflow', d, dict(kw))
    C = fe.cls('keras', d)
    inp = lambda b: gen.signal('noise', list(b) + ish, int(rng.integers(1 << 30))).astype('float32')

    def judge(y, x, what):
        mon.event('keras_call')
        cmp.outputs(mon, d, kw, [(None, np.asarray(y))], fe.norm(E(tf.constant(x))), float(np.abs(x).max()), K + 'value', detail=what)
    L = fe.build('keras', d, kw)
    mode = gen.pick(rng, ['eager', 'functional', 'sequential', 'config', 'config', 'fit', 'function'])
    mon.event('mode:' + mode)
    if mode == 'eager':
        for b in ([2], [1], [3]):
            x = inp(b)
            y = L(x)
            judge(y, x, 'eager layer call')
            s = tuple(L.compute_output_shape((b[0],) + tuple(ish)))
            mon.check(tuple(s) == tuple(y.shape), K + 'output_shape', lambda: 'compute_output_shape says %s, output has %s' % (s, y.shape))
    elif mode in ('functional', 'config'):
        mon.event('keras_symbolic')
        i = keras.Input(shape=tuple(ish))
        o = L(i)
        s = tuple(L.compute_output_shape((None,) + tuple(ish)))
        m = keras.Model(i, o)
        for b in ([2], [3]):
            x = inp(b)
            y = m(x)
            judge(y, x, 'functional model')
            mon.check(tuple(o.shape[1:]) == tuple(y.shape[1:]) and tuple(s[1:]) == tuple(y.shape[1:]), K + 'output_shape',
                      lambda: 'symbolic output %s, compute_output_shape %s, actual %s' % (o.shape, s, y.shape))
        x = inp([5])
        judge(m.predict(x, batch_size=2, verbose=0), x, 'Model.predict in uneven batches')
        mon.check(tuple(m.output_shape[1:]) == tuple(o.shape[1:]), K + 'output_shape', 'Model.output_shape %s' % (m.output_shape,))
        mon.check(m.count_params() == 0 and not L.trainable_weights and not m.trainable_weights, K + 'weights', 'the layer has weights')
        if mode == 'config':
            mon.event('keras_config')
            m2 = keras.Model.from_config(m.get_config(), custom_objects={C.__name__: C})
            judge(m2(x), x, 'model rebuilt from its configuration')
            m3 = keras.models.clone_model(m)
            judge(m3(x), x, 'cloned model')
            mj = keras.models.model_from_json(m.to_json(), custom_objects={C.__name__: C})
            judge(mj(x), x, 'model rebuilt from JSON')
            if gen.chance(rng, .5):
                import os
                import tempfile
                with tempfile.TemporaryDirectory() as td:
                    f = os.path.join(td, 'm.keras')
                    m.save(f)
                    judge(keras.models.load_model(f, custom_objects={C.__name__: C})(x), x, 'model saved and loaded')
                mon.event('keras_saved')
    elif mode == 'sequential':
        mon.event('keras_symbolic')
        m = keras.Sequential([L, keras.layers.Flatten()])
        x = inp([3])
        y = m(x)
        r = np.asarray(E(tf.constant(x)))
        mon.event('keras_call')
        cmp.outputs(mon, d, kw, [(None, np.asarray(y).reshape(r.shape))], [(None, r)], float(np.abs(x).max()), K + 'value', detail='Sequential with Flatten')
        mon.check(tuple(m.output_shape[1:]) == (int(np.prod(r.shape[1:])),), K + 'output_shape', lambda: 'Flatten output %s for %s' % (m.output_shape, r.shape))
    elif mode == 'function':
        fn = tf.function(lambda v: L(v), input_signature=[tf.TensorSpec([None] + ish, tf.float32)])
        for b in ([2], [4]):
            x = inp(b)
            judge(fn(tf.constant(x)), x, 'layer inside tf.function with unknown batch')
    else:
        mon.event('keras_fit')
        i = keras.Input(shape=tuple(ish))
        h = keras.layers.Flatten()(L(i))
        m = keras.Model(i, keras.layers.Dense(1)(h))
        mon.check(len(m.trainable_weights) == 2, K + 'weights', '%d trainable weights, 2 expected' % len(m.trainable_weights))
        m.compile(loss='mse', optimizer=keras.optimizers.SGD(1e-4))
        x = inp([6])
        before = np.asarray(L(x))
        m.fit(x, np.ones(6), epochs=1, batch_size=4, verbose=0)
        judge(L(x), x, 'layer after a training step')
        mon.same(np.asarray(L(x)), before, K + 'training', 'output before and after a training step')
    # configuration
    mon.event('keras_config')
    L2 = C.from_config(L.get_config())
    x = inp([2])
    judge(L2(x), x, 'layer rebuilt from get_config()')
    cfg = {k: (tuple(v) if isinstance(v, list) else v) for k, v in L2.get_config().items()}
    given = {k: v for k, v in fe.kwargs(kw).items() if k in ('J', 'Q', 'T', 'L', 'max_order', 'pre_pad', 'oversampling')}
    mon.check(all(cfg.get(k) == v for k, v in given.items()), K + 'config', lambda: 'configuration %s does not carry %s' % (cfg, given))
    mon.sample = {'dim': d, 'kw': kw, 'mode': mode}
