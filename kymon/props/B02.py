"""Contracts of the backend primitives."""
from .. import gen

TECHNIQUE = 'tracing backends: every primitive call made while real transforms run, and direct calls on adversarial arguments, are checked online against NumPy references; error-type monitor for invalid arguments'
NOTE = 'Sampled parameters and data. Tolerances are rounding bounds times the size of the data. No proof. skcuda backends need a GPU.'
RULE = 'seeded random (backend, dimension, configuration, data, or direct arguments); non-trivial = some result not all zero'
ASSUMPTIONS = ['NumPy FFT in double precision is the reference', 'a PyTorch tensor is complex exactly if its last dimension is 2']
REQUIRED = {'op': 100000, 'traced_call': 500, 'direct': 1500, 'rejected': 5000}
PER = {'numpy': 6, 'torch': 6, 'tensorflow': 2, 'jax': 1}
DIMS = ['1d', '2d', '3d', 'jtfs']


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('B02', tier, seed)
    n = 30 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f in PER:
            for d in DIMS:
                for k in range(PER[f]):
                    if tier == 'quick' and (f == 'jax' and i % 6 or f == 'tensorflow' and i % 3):
                        continue
                    kw = gen.fe_cfg(f, d, rng, True)
                    if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                        kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                    yield dict(kind='trace:%s:%s' % (f, d), mode='trace', fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))
                    if d != 'jtfs':
                        yield dict(kind='direct:%s:%s' % (f, d), mode='direct', fe=f, dim=d, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


def backend_of(f, d):
    import importlib
    return importlib.import_module('kymatio.scattering%s.backend.%s_backend' % ({'jtfs': '1d'}.get(d, d), f)).backend


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, tap
    f, d = case['fe'], case['dim']
    rng = gen.rng_for('b', case['seed'])
    dd = '1d' if d == 'jtfs' else d
    K = '%s:%s:' % (f, dd)
    base = backend_of(f, d)
    T = tap.Tap(mon, f, dd, base, K)
    if case['mode'] == 'trace':
        kw = case['kw']
        mon.event('traced_call')
        mon.state('config', [f, d, kw])
        ish = gen.in_shape(d, kw)
        lead = gen.pick(rng, [[2], [1], [2, 2], []])
        x = gen.signal(gen.pick(rng, gen.KINDS), lead + ish, case['seed'], amp=float(gen.pick(rng, [1., 1., 1e-6, 1e5]))).astype(gen.pick(rng, ['float32', 'float64']) if f == 'numpy' else 'float32')
        S = fe.cls(f, d)(**dict(fe.kwargs(kw), backend=T.backend))
        P = fe.build(f, d, kw)
        n0 = mon.events['op']
        y = fe.norm(fe.call(f, d, S, x))
        mon.check(mon.events['op'] > n0, K + 'untraced', 'no primitive of the given backend was called')
        z = fe.norm(fe.call(f, d, P, x))
        cmp.identical(mon, y, z, K + 'tracing', 'result with the tracing backend')
        if f == 'torch' and gen.chance(rng, .3):
            import torch
            v = torch.from_numpy(x.astype('float64')).requires_grad_(True)
            out = S.double()(v)
            out = out if not isinstance(out, list) else torch.cat([p['coef'].reshape(-1) for p in out])
            out.sum().backward()
            mon.check(v.grad is not None and bool(torch.isfinite(v.grad).all()) or d == '3d', K + 'gradient', 'gradient through the tracing backend')
        mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'ops': mon.events['op']}
        return
    B = T.backend
    prec = 'float32' if f != 'torch' and f != 'numpy' or gen.chance(rng, .5) else 'float64'
    cprec = {'float32': 'complex64', 'float64': 'complex128'}[prec]
    r = lambda a, b: int(rng.integers(a, b + 1))
    nd = tap.NAX[dd]

    def real(shape):
        return gen.signal(gen.pick(rng, gen.KINDS), shape, int(rng.integers(1 << 30)), amp=float(gen.pick(rng, [1., 1., 1e-4, 1e4]))).astype(prec)

    def to(a, trail=True):
        """NumPy array -> tensor in the representation of the backend."""
        if f == 'torch':
            import torch
            if np.iscomplexobj(a):
                a = np.stack([a.real, a.imag], -1)
            elif trail:
                a = a[..., None]
            return torch.from_numpy(np.ascontiguousarray(a))
        if f == 'tensorflow':
            import tensorflow as tf
            return tf.constant(a)
        if f == 'jax':
            import jax.numpy as jnp
            return jnp.asarray(a)
        return a

    def cplx(shape):
        return (real(shape) + 1j * real(shape)).astype(cprec)

    def reject(op, fn, types, what):
        if not hasattr(base, op):
            return
        mon.event('rejected')
        mon.checks += 1
        try:
            v = fn(getattr(base, op))
        except types:
            return
        except Exception as e:
            mon.violate(K + op + ':error_type', '%s(%s): %s: %s' % (op, what, type(e).__name__, str(e)[:200]))
        else:
            mon.violate(K + op + ':accepted', '%s(%s) returned %s' % (op, what, getattr(v, 'shape', type(v))))

    for _ in range(2 if f in ('numpy', 'torch') else 1):
        mon.event('direct')
        lead = [r(1, 3), r(1, 3)] if dd != '2d' else [r(1, 4)]
        k = 2 ** r(0, 4) if dd == '1d' else 2 ** r(0, 2)
        if dd == '1d' and gen.chance(rng, .4):
            k = r(1, 9)
        hi = {'1d': 40, '2d': 8, '3d': 6}[dd]
        sp = [k * r(1, max(1, hi // k) + 1) for _ in range(nd)]
        free = [r(1, {'1d': 300, '2d': 30, '3d': 12}[dd]) for _ in range(nd)]
        mon.state('direct', [f, dd, prec, lead, sp, k])
        if f == 'torch' and (sp[-1] == 2 or free[-1] <= 2):
            free[-1] = 3
        # values
        for s in (sp, free):
            x, z = real(lead + s), cplx(lead + s)
            B.rfft(to(x))
            for op in ('cfft', 'ifft', 'irfft', 'modulus'):
                if hasattr(B, op):
                    getattr(B, op)(to(z))
            if f != 'torch':
                # (PyTorch squares: magnitudes beyond 2**63 or below 2**-63 are not covered)
                for e in (26, -26) if prec == 'float32' else (180, -180):
                    mon.event('extreme_modulus')
                    B.modulus(to((z * 10. ** e).astype(z.dtype)))
            if hasattr(B, 'average_global'):
                B.average_global(to(x))
            # filters are NumPy arrays in all backends but PyTorch
            flt = to if f == 'torch' else lambda v: v
            B.cdgmm(to(z), flt(real(s)))
            B.cdgmm(to(z), to(cplx(s)))
            if hasattr(B, 'cdgmm3d'):
                # filters are NumPy arrays in TensorFlow
                g = cplx(s)
                B.cdgmm3d(to(z), to(g) if f != 'tensorflow' else g)
        if hasattr(B, 'subsample_fourier'):
            for kk in {k, 1}:
                B.subsample_fourier(to(cplx(lead + sp)), kk)
        if dd == '1d':
            N = r(3, 60)
            x = real(lead + [N])
            B.pad(to(x, False), r(0, N - 1), r(0, N - 1))
            B.pad(to(x, False), N - 1, N - 1)
            B.pad(to(x, False), 0, 0)
            B.pad(to(x, False), r(0, 3 * N), r(0, 3 * N), mode='constant')
            i0 = r(0, N - 1)
            B.unpad(to(x), i0, r(i0, N))
            F_, T_ = r(1, 12), r(3, 20)
            y = real([r(1, 3), 1, F_, T_])
            hasattr(B, 'swap_time_frequency') and B.swap_time_frequency(to(y))
            hasattr(B, 'swap_time_frequency') and B.swap_time_frequency(to(cplx([r(1, 3), 1, F_, T_])))
            s = 2 ** r(0, 3)
            hasattr(B, 'unpad_frequency') and B.unpad_frequency(to(y), r(0, F_ * s), s)
            hasattr(B, 'split_frequency_axis') and B.split_frequency_axis(to(y))
            hasattr(B, 'pad_frequency') and B.pad_frequency(to(real([r(1, 3), 1, T_, F_])), r(0, 20))
            parts = [real(lead + [T_]) for _ in range(r(1, 6))]
            B.stack([to(p, False) for p in parts], dim=-2)
            B.stack([to(p, False) for p in parts], dim=1)
            for a, b in ((N, 0), (0, N), (N + r(0, 9), r(0, 3)), (r(0, 2), N + r(0, 9))):
                reject('pad', lambda g: g(to(x, False), a, b), ValueError, 'pads %d, %d of %d samples' % (a, b, N))
        elif dd == '2d':
            M, N = r(3, 14), r(3, 14)
            p = [r(0, M - 1), r(0, M - 1), r(0, N - 1), r(0, N - 1)]
            x = real(lead + [1, M, N]) if f != 'numpy' and f != 'jax' else real(lead + [M, N])
            B.Pad(p, [M, N])(to(x, False))
            a, b = r(1, M), r(1, N)
            if f != 'numpy' and f != 'jax' and (a == M or b == N):
                pass
            B.Pad([a, a, b, b], [M, N])(to(x, False))
            B.unpad(to(real(lead + [M, N])))
            B.stack([to(real(lead + [M, N]), False) for _ in range(r(1, 5))])
        else:
            L = r(0, 3)
            n = r(1, 3)
            B.stack([to(real([2, 3]), False) for _ in range(n * (L + 1))], L)
            x = cplx([r(1, 3)] + free)
            m = B.modulus_rotation(to(x), None)
            B.modulus_rotation(to(cplx(list(x.shape))), m)
            q = [float(gen.pick(rng, [.5, 1., 2., 3., 1.5, .25])) for _ in range(r(1, 4))]
            B.compute_integrals(to(np.abs(x).astype(prec), False), q)
        if dd != '2d' and dd != '3d':
            x = real([r(1, 3) for _ in range(r(0, 3))] + [r(1, 20)])
            z = B.reshape_input(to(x, False), x.shape[-1:])
            B.reshape_output(z, x.shape[:-1] if f != 'tensorflow' else B.shape(to(x, False))[:-1], n_kept_dims=1)
            B.shape(to(x, False))
        # rejections
        s = list(free)
        x, z = to(real(lead + s)), to(cplx(lead + s))
        TE = TypeError
        for op in ('ifft', 'irfft', 'cfft'):
            reject(op, lambda g: g(x), TE, 'real data')
        for op in ('rfft', 'average_global'):
            reject(op, lambda g: g(z), TE, 'complex data')
        if hasattr(B, 'subsample_fourier'):
            reject('subsample_fourier', lambda g: g(to(real(lead + sp)), 1), TE, 'real data')
        reject('cdgmm', lambda g: g(x, to(real(s))), TE, 'real first argument')
        wrong = list(s)
        wrong[r(0, nd - 1)] += r(1, 3)
        reject('cdgmm', lambda g: g(z, to(real(wrong))), RuntimeError, 'shapes %s and %s' % (lead + s, wrong))
        if f == 'torch':
            import torch
            reject('modulus', lambda g: g(x), TE, 'real data')
            other = torch.float64 if prec == 'float32' else torch.float32
            reject('cdgmm', lambda g: g(z, to(real(s)).to(other)), TE, 'other precision')
            if max(s) > 1:
                a = torch.stack([z, z], 0)
                a = a.transpose(0, -2) if a.shape[-2] > 1 else a[..., [0, 0], :][..., ::2, :]
                if not a.is_contiguous():
                    for op in ('ifft', 'irfft', 'cfft', 'modulus'):
                        reject(op, lambda g: g(a), RuntimeError, 'non-contiguous data')
        else:
            reject('cdgmm', lambda g: g(z, (to(np.ones(s, 'int32')))), TE, 'integer filter')
        for bad in ([None] if True else []):
            if hasattr(base, 'input_checks'):
                reject('input_checks', lambda g: g(bad), TE, 'None')
        if f == 'numpy':
            for bad in ([1., 2.], 3, 'a'):
                reject('input_checks', lambda g: g(bad), TE, repr(bad))
    mon.sample = {'backend': f, 'dim': dd, 'precision': prec}
