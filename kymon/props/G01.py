"""Gradients."""
from .. import gen

TECHNIQUE = 'differential gradient monitor: autograd of each framework against directional derivatives of observed executions and against each other'
NOTE = 'Sampled parameters, inputs and directions; PyTorch in double precision against central differences, TensorFlow and JAX against PyTorch. Finiteness at degenerate inputs. No proof.'
RULE = 'seeded random (framework, transform, parameters, input, direction, weights); non-trivial = gradient not all zero'
ASSUMPTIONS = ['generic inputs: moduli do not vanish on the segment of the finite difference', '3D: sigma_0*2^J at most a third of the smallest side (otherwise the coarsest filters vanish on the grid)', 'TensorFlow and JAX work in single precision']
REQUIRED = {'directional_derivative': 300, 'degenerate': 150, 'batch_independence': 100, 'single_coefficient': 200, 'framework_pair': 20}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('G01', tier, seed)
    n = 150 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in fe.AVAILABLE['torch']:
            for k in range(3):
                kw = config('torch', d, rng)
                if kw.get('T') == 0 and d == 'jtfs' and gen.chance(rng, .5):
                    continue
                yield dict(kind='torch:' + d, aff='torch', fe='torch', dim=d, kw=kw, seed=int(rng.integers(1 << 30)))
            for f, m in (('tensorflow', 8 if d != 'jtfs' else 20), ('jax', 25 if d != 'jtfs' else 75)):
                if i % (m if tier == 'quick' else 4) == 0:
                    kw = config(f, d, rng)
                    if d == 'jtfs' and gen.cost1d(kw) > 12 or d == '1d' and gen.cost1d(kw) > 40:
                        kw = dict(J=3, shape=64, Q=1, **({'J_fr': 2, 'format': gen.pick(rng, ['time', 'joint'])} if d == 'jtfs' else {}))
                    yield dict(kind=f + ':' + d, aff=fe.AFF[f], fe=f, dim=d, kw=kw, seed=int(rng.integers(1 << 30)))


def config(fe, d, rng):
    while True:
        kw = gen.fe_cfg(fe, d, rng, True)
        # a wavelet wider than the grid has no samples in its Fourier support: moduli vanish identically there
        if d != '3d' or kw['sigma_0'] * 2 ** kw['J'] <= min(kw['shape']) / 3:
            return kw


def weights(y, seed):
    import numpy as np
    r = gen.rng_for('w', seed)
    return [r.standard_normal(tuple(a.shape)) for a in y]


def parts(y):
    return [p['coef'] for p in y] if isinstance(y, list) else [y]


def grad_torch(S, x, ws, dtype):
    import numpy as np
    import torch
    t = torch.tensor(np.ascontiguousarray(x), dtype=dtype, requires_grad=True)
    y = parts(S(t))
    w = ws([np.empty(tuple(a.shape)) for a in y])
    loss = sum((a * torch.tensor(b, dtype=a.dtype)).sum() for a, b in zip(y, w))
    loss.backward()
    return t.grad.numpy(), w


def grad_tf(S, x, w):
    import tensorflow as tf
    t = tf.constant(x, tf.float32)
    with tf.GradientTape() as tape:
        tape.watch(t)
        loss = sum(tf.reduce_sum(a * tf.constant(b, a.dtype)) for a, b in zip(parts(S(t)), w))
    return tape.gradient(loss, t).numpy()


def grad_jax(S, x, w):
    import jax, jax.numpy as jnp
    import numpy as np
    return np.asarray(jax.grad(lambda t: sum(jnp.sum(a * jnp.asarray(b, a.dtype)) for a, b in zip(parts(S(t)), w)))(jnp.asarray(x, jnp.float32)))


def run_case(case, mon):
    import numpy as np
    import torch
    from .. import fe, cmp
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('g', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    S = fe.build('torch', d, kw).double()
    ish = gen.in_shape(d, kw)
    lead = gen.pick(rng, [[], [2], [3], [1, 2]])
    if gen.chance(rng, .15) and int(np.prod(ish)) <= 600 and f == 'torch':
        lead = gen.pick(rng, [[9], [17], [33], [4, 5], [2, 3, 2], [1, 10], [70]])
        mon.event('large_batch')
    x = gen.signal('noise', lead + ish, case['seed']) + .1
    ws = lambda y: weights(y, case['seed'])
    g, w = grad_torch(S, x, ws, torch.float64)
    nz = float(np.abs(g).max())
    mon.nontrivial |= nz > 0
    if not mon.check(bool(np.isfinite(g).all()), K + 'finite', 'gradient not finite at a generic input'):
        return
    val = lambda v, sel=None: [a.detach().numpy() for a in parts(S(torch.tensor(np.ascontiguousarray(v), dtype=torch.float64)))]
    if f == 'torch':
        def directional(loss, grad, key, what):
            v = rng.standard_normal(x.shape)
            ad = float((grad * v).sum())
            s = float(np.abs(grad * v).sum())
            # a modulus that passes through zero inside the segment spoils the quotient: then a shorter segment is tried
            best = None
            for h in (1e-5, 1e-6, 1e-7):
                fd = (8 * (loss(x + h * v) - loss(x - h * v)) - (loss(x + 2 * h * v) - loss(x - 2 * h * v))) / (12 * h)  # fourth-order central difference
                tol = 1e-4 * abs(ad) + 1e-5 * s + 1e-14 * lscale / h + 1e-9
                r = (abs(fd - ad) / tol, fd, h, tol)
                best = min(best, r) if best else r
                if r[0] <= .1:
                    break
                mon.event('shorter_segment')
            mon.below(abs(best[1] - ad), best[3], K + key, '%s: difference quotient %.9g (step %g), gradient %.9g' % (what, best[1], best[2], ad))
        dot = lambda y: sum(float((a * b).sum()) for a, b in zip(y, w))
        y0 = val(x)
        lscale = sum(float(np.abs(a * b).sum()) for a, b in zip(y0, w))
        mon.event('directional_derivative')
        directional(lambda v: dot(val(v)), g, 'directional', 'weighted sum of all coefficients')
        # one coefficient
        for _ in range(2):
            i = int(rng.integers(len(y0)))
            ix = tuple(int(rng.integers(n)) for n in y0[i].shape)
            t = torch.tensor(x, requires_grad=True)
            out = parts(S(t))[i][ix]
            lscale = abs(float(out))
            mon.event('single_coefficient')
            if not mon.check(out.requires_grad, K + 'flow', lambda: 'coefficient %s of output %d does not depend on the input for autograd' % (ix, i)):
                return
            out.backward()
            gi = t.grad.numpy()
            directional(lambda v: float(val(v)[i][ix]), gi, 'coefficient', 'coefficient %s of output %d' % (ix, i))
        # batch independence
        if lead:
            mon.event('batch_independence')
            k = tuple(int(rng.integers(n)) for n in lead)
            we = [b[k] if True else b for b in w] if d in ('1d', '2d', '3d') or kw.get('out_type', 'array') != 'list' else [b[k] for b in w]
            ge, _ = grad_torch(S, x[k], lambda y: we, torch.float64)
            mon.close(g[k], ge, K + 'batch', rtol=1e-7, atol=1e-12, detail='gradient of element %s' % (k,))
    else:
        Sf = fe.build(f, d, kw)
        gf = (grad_tf if f == 'tensorflow' else grad_jax)(Sf, x, w)
        mon.event('framework_pair')
        mon.close(gf, g, K + 'agree', rtol=2e-3 if d != '3d' else 1e-2, atol=1e-6, detail='%s gradient against PyTorch' % f)
    # degenerate inputs
    if d == '3d':
        return
    S32 = fe.build(f, d, kw) if f == 'torch' else Sf
    for name in ('zeros', 'constant', 'impulse', 'sparse')[:4 if f == 'torch' else 2]:
        z = gen.signal(name, lead + ish, case['seed']).astype('float32')
        if name == 'constant':
            z = np.full_like(z, 1.5)
        mon.event('degenerate')
        if f == 'torch':
            gz, _ = grad_torch(S32, z, ws, torch.float32)
        else:
            gz = (grad_tf if f == 'tensorflow' else grad_jax)(Sf, z, w)
        if not mon.check(bool(np.isfinite(gz).all()), K + 'degenerate', lambda: '%d of %d gradient entries not finite at %s input' % ((~np.isfinite(gz)).sum(), gz.size, name)):
            return
        if name == 'zeros':
            # moduli have zero (sub)gradient there: only the zeroth order, which is linear, contributes
            gd, _ = grad_torch(S, z, ws, torch.float64)
            mon.close(gz, gd, K + 'degenerate_value', rtol=2e-3, atol=2e-4 * max(1.0, nz), detail='gradient at zero input')
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'gradient': nz}
