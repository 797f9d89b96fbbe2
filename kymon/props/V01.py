"""Rejection of invalid inputs."""
from .. import gen

TECHNIQUE = 'fault injection with an error-type monitor: invalid inputs fed to every frontend between valid calls, which are compared bit for bit with those of an undisturbed object'
NOTE = 'Sampled parameters; a catalogue of about thirty kinds of invalid inputs, with sizes and dtypes drawn at random. No proof.'
RULE = 'seeded random (frontend, transform, parameters, order of invalid and valid inputs); non-trivial = the valid outputs are not all zero'
ASSUMPTIONS = ['TensorFlow and Keras convert lists of numbers, so these are not invalid there', 'empty batches are out of scope', 'scikit-learn: several signals per sample are allowed']
REQUIRED = {'refused': 20000, 'accepted_valid': 3000, 'kind:size': 2000, 'kind:ndim': 500, 'kind:dtype': 2000, 'kind:object': 2000}
FAST = {'numpy': 4, 'torch': 4, 'sklearn': 3, 'tensorflow': 2, 'jax': 1, 'keras': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('V01', tier, seed)
    n = 40 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            for k in range(FAST[f]):
                if f == 'jax' and tier == 'quick' and i % 8 or f == 'keras' and i % 2:
                    continue
                kw = gen.fe_cfg(f, d, rng, True)
                if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                    kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                yield dict(kind='%s:%s' % (f, d), fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


class Odd:
    shape = 'odd'


def invalid(f, d, ish, rng):
    """(kind, name, NumPy array or other object) of inputs that must be refused."""
    import numpy as np
    nd = len(ish)
    arr = lambda s: rng.standard_normal(s).astype('float32')
    lead = gen.pick(rng, [[], [1], [2], [3, 2]])
    for a in range(nd):
        for n in {ish[a] - 1, ish[a] + 1, 2 * ish[a], ish[a] // 2, 1, int(rng.integers(1, 3 * ish[a] + 3))} - {ish[a], 0}:
            s = list(ish)
            s[a] = n
            yield 'size', 'spatial shape %s' % s, arr(lead + s)
    if nd > 1:
        for p in ([1, 0], [0, 2, 1], [2, 1, 0], [1, 2, 0]):
            if len(p) == nd and [ish[i] for i in p] != ish:
                yield 'size', 'axes permuted %s' % p, arr(lead + [ish[i] for i in p])
        if f != 'sklearn':
            s = list(ish)
            s[0] *= 2
            s[-1] //= 2
            if 2 * s[-1] == ish[-1]:
                yield 'size', 'same number of values %s' % s, arr(lead + s)
            yield 'size', 'flattened', arr([2, int(np.prod(ish))]) if nd == 2 and [2, int(np.prod(ish))] != ish else arr([2, 2, int(np.prod(ish))])
    if f != 'sklearn':
        if ish + [1] != ish[-1:] * (nd + 1) and (ish + [1])[-nd:] != ish:
            yield 'size', 'channels last', arr(ish + [1])
        for k in range(1, nd):
            yield 'ndim', '%d dimensions' % k, arr(ish[nd - k:])
    yield 'ndim', '0 dimensions', np.float32(1.5) * np.ones(())
    good = arr(([2] if not lead else lead) + ish)
    for t in ('complex64', 'complex128', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'bool'):
        yield 'dtype', t, (good * 3).astype(t)
    for name, v in (('None', None), ('string', 'abc'), ('int', 3), ('float', 2.5), ('dict', {}), ('set', {1.0}), ('object', object()), ('function', len), ('bytes', b'ab'), ('odd shape attribute', Odd())):
        yield 'object', name, v
    if f not in ('tensorflow', 'keras'):
        yield 'object', 'nested list', good.tolist()
        yield 'object', 'tuple of arrays', tuple(good)
        yield 'object', 'empty list', []
    if f in ('numpy', 'sklearn'):
        yield 'dtype', 'object array', good.astype(object)
    yield 'dtype', 'string array', np.array(['ab', 'cd'])


def convert(f, x, rng, kind):
    """The input as a user of the frontend would hold it."""
    import numpy as np
    if not isinstance(x, np.ndarray):
        return x
    if f == 'sklearn':
        return x
    if x.dtype.kind in 'OU':
        return x
    if f == 'torch':
        import torch
        if x.dtype == np.uint16:
            x = x.astype('int16')
        return torch.from_numpy(np.array(x))
    if f in ('tensorflow', 'keras'):
        import tensorflow as tf
        return tf.constant(x) if gen.chance(rng, .6) else x
    if f == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x) if gen.chance(rng, .6) else x
    return x


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('v', case['seed'])
    ish = gen.in_shape(d, kw)
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    S, U = fe.build(f, d, kw), fe.build(f, d, kw)
    good = [gen.signal(gen.pick(rng, ['noise', 'burst', 'impulse', 'zeros']), lead + ish, int(rng.integers(1 << 30))).astype('float32') for lead in ([2], [1] if f == 'keras' else [], [2, 1])]
    if f == 'keras':
        good.pop()
    want = [fe.norm(fe.call(f, d, U, x)) for x in good]

    def valid():
        i = int(rng.integers(len(good)))
        mon.event('accepted_valid')
        cmp.identical(mon, fe.norm(fe.call(f, d, S, good[i])), want[i], K + 'valid', 'valid input after refused ones')
    if f == 'keras' or gen.chance(rng, .5):
        valid()
    bad = list(invalid(f, d, list(ish), rng))
    if f == 'torch':
        import torch
        if d == '2d' and min(ish) > 1:
            bad.append(('layout', 'non-contiguous', torch.randn([2] + ish[::-1]).transpose(-1, -2)))
        bad.append(('object', 'NumPy array', good[0]))
    if f == 'keras':
        bad = [b for b in bad if b[0] != 'object' or b[1] in ('None', 'dict')]
        bad = [b for b in bad if b[0] != 'dtype' or b[2].dtype.kind != 'U']
    bad = [bad[int(i)] for i in rng.permutation(len(bad))]
    if f in ('jax', 'keras', 'tensorflow'):
        bad = bad[:30]
    for kind, name, x in bad:
        v = x if name == 'NumPy array' else convert(f, x, rng, kind)
        mon.event('kind:' + kind)
        if f == 'sklearn':
            if isinstance(v, np.ndarray) and v.ndim >= len(ish):
                flat = v.reshape(v.shape[:v.ndim - len(ish)] + (-1,))
                if kind == 'size' and flat.shape[-1] % int(np.prod(ish)) == 0:
                    continue
                v = flat
            call = S.predict if gen.chance(rng, .5) else S.transform
        else:
            call = S if f != 'torch' or gen.chance(rng, .6) else S.scattering
        try:
            y = call(v)
        except (TypeError, ValueError, RuntimeError) as e:
            mon.event('refused')
            mon.state('message', [kind, f, str(e)[:40]])
        except AttributeError as e:
            mon.event('refused')
            is_array = isinstance(v, np.ndarray) and f != 'torch' or (f == 'torch' and hasattr(v, 'is_contiguous'))
            mon.check(not is_array, K + 'error_type', lambda: '%s (%s) refused with %s: %s' % (name, kind, type(e).__name__, str(e)[:200]))
        except Exception as e:
            mon.violate(K + 'error_type', '%s (%s) refused with %s: %s' % (name, kind, type(e).__name__, str(e)[:200]))
        else:
            mon.violate(K + 'accepted:' + kind, 'input with %s accepted by a transform of shape %s: output %s' % (name, ish, getattr(y, 'shape', type(y))))
        mon.checks += 1
        if mon.violations:
            return
        if gen.chance(rng, .15):
            valid()
    valid()
    # valid inputs are never refused
    if f in ('numpy', 'sklearn', 'torch'):
        for lead in ([1], [2, 1, 2], []):
            x = gen.signal(gen.pick(rng, gen.KINDS), lead + ish, int(rng.integers(1 << 30)))
            x = x.astype('float64' if f != 'torch' and gen.chance(rng, .5) else 'float32')
            fe.call(f, d, S, x)
            mon.event('accepted_valid')
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'invalid_inputs': len(bad)}
