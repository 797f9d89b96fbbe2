"""Output dtype, and independence of the memory layout of the inputs."""
from .. import gen

TECHNIQUE = 'dtype monitor on every output and differential monitoring of one signal presented in every memory layout the frontend accepts (strided, reversed, transposed, broadcast, unaligned, read-only, memory-mapped, subclass, foreign buffers)'
NOTE = 'Sampled parameters and layouts; up to fourteen layouts per case. No proof.'
RULE = 'seeded random (frontend, transform, parameters, signal, precision); non-trivial = the outputs are not all zero'
ASSUMPTIONS = ['native-endian float32 and float64 inputs: other floating-point types are refused by the frontends', 'PyTorch frontends may refuse a non-contiguous tensor with RuntimeError, as documented by its message; when they accept it the values must be right', 'JAX in its default single precision unless the case enables 64 bits']
REQUIRED = {'layout': 4000, 'dtype': 5000, 'precisions': 400, 'jax64': 40, 'layout:negative stride': 100, 'layout:unaligned': 50, 'layout:broadcast': 50, 'layout:read-only': 100, 'large_batch': 100}
PER = {'numpy': 4, 'torch': 4, 'sklearn': 2, 'tensorflow': 2, 'jax': 1, 'keras': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('D01', tier, seed)
    n = 28 if tier == 'quick' else 10 ** 9
    for i in range(n):
        if i % 4 == 0:
            for d in ('1d', '2d', '3d', 'jtfs'):
                kw = gen.tiny(d, rng)
                yield dict(kind='jax64:' + d, fe='jax', dim=d, kw=kw, aff='jax', seed=int(rng.integers(1 << 30)))
        for f, d in gen.pairs():
            for k in range(PER[f]):
                if tier == 'quick' and (f in ('jax', 'keras') and i % 6 or f == 'tensorflow' and i % 3):
                    continue
                kw = gen.fe_cfg(f, d, rng, True)
                if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                    kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                yield dict(kind='%s:%s' % (f, d), fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


def np_layouts(x, rng, tmp, nb):
    """(name, array) pairs holding the same values as x in other layouts."""
    import numpy as np
    yield 'contiguous', x.copy()
    yield 'Fortran', np.asfortranarray(x)
    big = np.full([2 * n for n in x.shape], np.nan, x.dtype)
    s = tuple(slice(None, None, 2) for _ in x.shape)
    big[s] = x
    yield 'strided', big[s]
    a = int(rng.integers(x.ndim))
    rev = tuple(slice(None, None, -1) if k == a or rng.random() < .5 else slice(None) for k in range(x.ndim))
    yield 'negative stride', np.ascontiguousarray(x[rev])[rev]
    if x.ndim > 1:
        perm = [int(i) for i in rng.permutation(x.ndim)]
        yield 'transposed', np.ascontiguousarray(x.transpose(perm)).transpose(np.argsort(perm))
    b = np.full([n + 3 for n in x.shape], np.nan, x.dtype)
    s = tuple(slice(1, n + 1) for n in x.shape)
    b[s] = x
    yield 'window', b[s]
    raw = np.zeros(x.nbytes + 1 + 64, 'uint8')
    u = raw[1:1 + x.nbytes].view(x.dtype).reshape(x.shape)
    u[...] = x
    yield 'unaligned', u
    r = x.copy()
    r.setflags(write=False)
    yield 'read-only', r
    yield 'foreign buffer', np.frombuffer(x.tobytes(), x.dtype).reshape(x.shape)

    class Sub(np.ndarray):
        pass
    yield 'subclass', x.copy().view(Sub)
    rec = np.zeros(x.shape, [('pad', 'i1'), ('v', x.dtype)])
    rec['v'] = x
    yield 'record field', rec['v']
    cplx = np.full(x.shape, 7j + 1, 'c8' if x.dtype == np.float32 else 'c16')
    cplx.imag = x
    yield 'imaginary part', cplx.imag
    if tmp is not None:
        m = np.memmap(tmp, x.dtype, 'w+', shape=x.shape)
        m[...] = x
        yield 'memory map', m
    if nb and x.shape[0] > 1:
        yield 'broadcast', np.broadcast_to(x[:1], x.shape)


def torch_layouts(x, rng, nb):
    import numpy as np
    import torch
    t = torch.from_numpy(np.array(x))
    yield 'contiguous', t.clone()
    yield 'NumPy memory', torch.from_numpy(x.copy())
    s = tuple(slice(None, None, 2) for _ in x.shape)
    big = torch.full([2 * n for n in x.shape], float('nan'), dtype=t.dtype)
    big[s] = t
    yield 'strided', big[s]
    if x.ndim > 1:
        perm = [int(i) for i in rng.permutation(x.ndim)]
        yield 'transposed', t.permute(perm).contiguous().permute([int(i) for i in np.argsort(perm)])
    b = torch.full([n + 3 for n in x.shape], float('nan'), dtype=t.dtype)
    s = tuple(slice(1, n + 1) for n in x.shape)
    b[s] = t
    yield 'window', b[s]
    off = torch.zeros(t.numel() + 5, dtype=t.dtype)
    off[5:] = t.reshape(-1)
    yield 'storage offset', off[5:].reshape(t.shape)
    raw = np.zeros(x.nbytes + 1, 'uint8')
    u = raw[1:].view(x.dtype).reshape(x.shape)
    u[...] = x
    yield 'unaligned', torch.from_numpy(u)
    yield 'leaf with gradient', t.clone().requires_grad_(True)
    yield 'non-leaf with gradient', t.clone().requires_grad_(True) * 1
    yield 'parameter', torch.nn.Parameter(t.clone())
    yield 'shared memory', t.clone().share_memory_()
    if nb and x.shape[0] > 1:
        yield 'broadcast', t[:1].expand(t.shape)
    with torch.inference_mode():
        yield 'inference tensor', t.clone()


def run_jax64(case, mon):
    """JAX with 64-bit types enabled: as precise as NumPy."""
    import numpy as np
    import jax.numpy as jnp
    from jax.experimental import enable_x64
    from .. import fe, cmp
    d, kw = case['dim'], case['kw']
    x = gen.signal('noise', [2] + gen.in_shape(d, kw), case['seed'])
    xs = float(np.abs(x).max())
    N = fe.build('numpy', d, kw)
    with enable_x64():
        S = fe.build('jax', d, kw)
        for dt in ('float64', 'float32'):
            want, raw = fe.norm(N(x.astype(dt))), S(jnp.asarray(x.astype(dt)))
            got = fe.norm(raw)
            mon.event('jax64')
            for (p, a), (_, b) in zip(got, want):
                mon.check(a.dtype == b.dtype, 'jax64:%s:dtype' % d, lambda: '%s input gives %s, expected %s' % (dt, a.dtype, b.dtype))
                mon.nontrivial |= bool(np.any(a))
            prec = 'double' if d != '3d' and dt == 'float64' else 'single'
            cmp.outputs(mon, d, kw, got, want, xs, 'jax64:' + d, prec, detail='64-bit types enabled, %s input' % dt)
    mon.state('config', ['jax64', d, kw])
    mon.sample = {'fe': 'jax', 'dim': d, 'kw': kw}


def run_case(case, mon):
    if case['kind'].startswith('jax64'):
        return run_jax64(case, mon)
    import os
    import numpy as np
    from .. import fe, cmp, core
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('d', case['seed'])
    K = '%s:%s:' % (f, d)
    ish = gen.in_shape(d, kw)
    lead = gen.pick(rng, [[2], [3], [2, 2], [1]] + ([[]] if f != 'keras' else []))
    if gen.chance(rng, .3):
        size = int(np.prod(ish)) * 64  # large batches where the signals are small
        lead = gen.pick(rng, [[9], [17], [33], [64], [130], [4, 5], [1, 40], [12, 1]])
        while int(np.prod(lead)) * size > 1 << 19 and int(np.prod(lead)) > 9:
            lead = [max(1, n * 2 // 3) for n in lead]
        mon.event('large_batch')
    x64 = gen.signal(gen.pick(rng, gen.KINDS), lead + ish, case['seed'])
    x64 = x64.astype('float32').astype('float64')
    mon.state('config', [f, d, kw])
    xs = float(np.abs(x64).max())

    def agree(a, b, key, prec, detail):
        if f == 'sklearn':
            t = cmp.atol(d, kw, xs, prec)
            mon.close(a, b, key, cmp.EPS[prec][0], atol=float(np.max(t)), detail=detail)
        else:
            cmp.close(mon, d, kw, a, b, xs, key, prec, detail)
    outs = {}
    S32 = S64 = None
    for prec in ('float32', 'float64'):
        if f == 'torch' or S32 is None:
            S = fe.build(f, d, kw)
        if f == 'torch' and prec == 'float64':
            S = S.double()
        S32 = S
        x = x64.astype(prec)
        if f == 'sklearn':
            x = x.reshape(x.shape[:len(lead)] + (-1,))
        call = S.predict if f == 'sklearn' else S
        want_dtype = {'numpy': 'float32' if d == '3d' else prec, 'sklearn': 'float32' if d == '3d' else prec, 'torch': prec}.get(f, 'float32')

        def coefs(y, name):
            out = []
            for a in ([p['coef'] for p in y] if isinstance(y, list) else [y]):
                n = fe.to_np(a)
                mon.event('dtype')
                dt = str(n.dtype)
                ok = dt == want_dtype or f in ('numpy', 'sklearn') and want_dtype == 'float32' and dt == 'float64' and d != '3d'
                mon.check(ok, K + 'dtype', lambda: 'output dtype %s for %s input (%s), expected %s; %s' % (dt, prec, name, want_dtype, kw))
                if f == 'torch' and d == '1d':
                    mon.check(a.dtype == getattr(__import__('torch'), prec), K + 'dtype', str(a.dtype))
                out.append(n)
            return out
        ref = coefs(call(x if f in ('numpy', 'sklearn') else fe.to_fe(f, x) if f != 'jax' else x), 'reference')
        outs[prec] = ref
        if any(np.any(a) for a in ref):
            mon.nontrivial = True
        tmp = None
        if f in ('numpy', 'sklearn') and gen.chance(rng, .3):
            tmp = os.path.join(core.VERIF, 'evidence', 'd01-%d.bin' % os.getpid())
        if f == 'torch':
            lay = list(torch_layouts(x, rng, len(lead)))
        elif f == 'jax':
            import jax.numpy as jnp
            lay = [('NumPy ' + n, v) for n, v in np_layouts(x, rng, None, len(lead)) if n != 'subclass'] + [('device array', jnp.asarray(x))]
        elif f in ('tensorflow', 'keras'):
            import tensorflow as tf
            x32 = x.astype('float32')
            lay = [('NumPy ' + n, v) for n, v in np_layouts(x, rng, None, len(lead))] + [('tensor', tf.constant(x32)), ('variable', tf.Variable(x32)), ('transposed', tf.transpose(tf.constant(x32.T)))]
        else:
            lay = list(np_layouts(x, rng, tmp, len(lead)))
        if f in ('jax', 'tensorflow', 'keras'):
            lay = [lay[int(i)] for i in rng.permutation(len(lay))[:5]]
        for name, v in lay:
            mon.event('layout')
            mon.event('layout:' + name.replace('NumPy ', ''))
            w = ref
            if name.endswith('broadcast'):
                w = [np.broadcast_to(a[:1], a.shape) for a in ref]
            try:
                y = call(v)
            except RuntimeError as e:
                if f == 'torch' and not v.is_contiguous() and 'contiguous' in str(e):
                    mon.event('refused_non_contiguous')
                    continue
                raise
            y = coefs(y, name)
            mon.equal(len(y), len(w), K + 'layout', 'number of outputs for %s' % name)
            for a, b in zip(y, w):
                agree(a, b, K + 'layout:' + name, 'single' if prec == 'float32' or want_dtype == 'float32' else 'double', '%s input in layout %s, %s' % (prec, name, kw))
        if tmp:
            lay = v = None
            try:
                os.remove(tmp)
            except OSError:
                pass
    if 0 < xs < 1e-20:
        return  # near the underflow threshold of single precision
    mon.event('precisions')
    for a, b in zip(outs['float32'], outs['float64']):
        agree(a, b, K + 'precision', 'single', 'single against double precision, %s' % kw)
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'lead': lead}
