"""Tracing backends: real backends whose primitives are checked against NumPy, call by call."""
import numpy as np

COMMON = ['modulus', 'cdgmm', 'rfft', 'ifft', 'irfft', 'cfft', 'subsample_fourier', 'stack', 'unpad', 'reshape_input', 'reshape_output', 'shape']
OPS = {
    '1d': COMMON + ['pad', 'average_global', 'pad_frequency', 'unpad_frequency', 'swap_time_frequency', 'split_frequency_axis'],
    '2d': COMMON,
    '3d': COMMON + ['modulus_rotation', 'compute_integrals', 'cdgmm3d'],
}
NAX = {'1d': 1, '2d': 2, '3d': 3}


def numpy_of(v):
    if hasattr(v, 'detach'):
        return v.detach().cpu().numpy()
    return np.asarray(v)


def canon(fw, v):
    """Frequency-domain or trailing-axis tensor -> NumPy real or complex array."""
    a = numpy_of(v)
    if fw == 'torch':
        if a.shape[-1] == 2:
            return a[..., 0] + 1j * a[..., 1]
        return a[..., 0]
    return a


def wide(a):
    return a.astype(np.complex128 if np.iscomplexobj(a) else np.float64)


def reflect(n, left, right):
    """Indices of whole-point reflection of 0..n-1, extended by left and right samples."""
    i = np.arange(-left, n + right)
    if n == 1:
        return np.zeros(len(i), int)
    p = 2 * (n - 1)
    i = i % p
    return np.where(i < n, i, p - i)


def norm2(x, ax):
    m = np.abs(x).max(axis=ax, keepdims=True)
    m = np.where(m > 1e-300, m, 1)
    return m * np.sqrt((np.abs(x / m) ** 2).sum(axis=ax, keepdims=True))


def prime(n):
    """Largest prime factor: FFT libraries lose accuracy in proportion to it."""
    p, best = 2, 1
    while n > 1:
        if n % p:
            p += 1
        else:
            n //= p
            best = p
    return best


def expected(fw, dim, op, a, k):
    """(reference result, tolerance per unit of machine epsilon), or None if the call is not modelled."""
    ax = tuple(range(-NAX[dim], 0))
    if op == 'modulus':
        x = wide(canon(fw, a[0]))
        return np.abs(x), 8 * np.abs(x)
    if op in ('cdgmm', 'cdgmm3d'):
        A, B = wide(canon(fw, a[0])), wide(canon(fw, a[1]))
        # some libraries flush denormal factors to zero
        return A * B, 16 * np.abs(A) * np.abs(B) + 1e-30 * ((np.abs(A).max() if A.size else 0) + (np.abs(B).max() if B.size else 0))
    if op in ('rfft', 'cfft'):
        x = wide(canon(fw, a[0]))
        n = np.prod([x.shape[i] for i in ax])
        t = 32 * (2 + np.log2(n) + max(prime(x.shape[i]) for i in ax)) * norm2(x, ax)
        return np.fft.fftn(x, axes=ax), t
    if op in ('ifft', 'irfft'):
        x = wide(canon(fw, a[0]))
        n = np.prod([x.shape[i] for i in ax])
        t = 32 * (2 + np.log2(n) + max(prime(x.shape[i]) for i in ax)) * norm2(x, ax) / n
        y = np.fft.ifftn(x, axes=ax)
        return (y.real if op == 'irfft' else y), t
    if op == 'subsample_fourier':
        x = wide(canon(fw, a[0]))
        kk = a[1] if len(a) > 1 else k['k']
        y = np.fft.ifftn(x, axes=ax)[(Ellipsis,) + (slice(None, None, kk),) * len(ax)]
        t = 8 * kk ** len(ax) * np.abs(x).max(axis=ax, keepdims=True) if x.size else 0
        return np.fft.fftn(y, axes=ax), t
    if op == 'average_global':
        x = wide(canon(fw, a[0]))
        return x.sum(axis=-1, keepdims=True), 4 * x.shape[-1] * np.abs(x).sum(axis=-1, keepdims=True)
    if op == 'pad':
        x = numpy_of(a[0])
        l, r = (list(a[1:3]) + [k[n] for n in ('pad_left', 'pad_right') if n in k])[:2]
        mode = a[3] if len(a) > 3 else k.get('mode', 'reflect')
        if mode == 'constant':
            return np.pad(x, [(0, 0)] * (x.ndim - 1) + [(l, r)]), 0
        return x[..., reflect(x.shape[-1], l, r)], 0
    if op == 'unpad':
        if dim == '2d':
            return canon(fw, a[0])[..., 1:-1, 1:-1], 0
        x = canon(fw, a[0])
        i0, i1 = (list(a[1:3]) + [k[n] for n in ('i0', 'i1') if n in k])[:2]
        return x[..., i0:i1], 0
    if op == 'pad_frequency':
        x = canon(fw, a[0])
        p = a[1] if len(a) > 1 else k['padding']
        return np.concatenate([x, np.zeros(x.shape[:-1] + (p,), x.dtype)], axis=-1), 0
    if op == 'unpad_frequency':
        x = canon(fw, a[0])
        n1, s = (list(a[1:3]) + [k[n] for n in ('n1_max', 'n1_stride') if n in k])[:2]
        return x[..., :1 + n1 // s, :], 0
    if op == 'swap_time_frequency':
        return np.swapaxes(canon(fw, a[0]), -1, -2), 0
    if op == 'modulus_rotation':
        x = wide(canon(fw, a[0]))
        m = a[1] if len(a) > 1 else k.get('module')
        m = 0. if m is None else wide(canon(fw, m))
        y = np.sqrt(np.abs(m) ** 2 + np.abs(x) ** 2)
        return y, 16 * y
    if op == 'compute_integrals':
        x = wide(numpy_of(a[0]))
        q = a[1] if len(a) > 1 else k['integral_powers']
        with np.errstate(all='ignore'):
            y = np.stack([(x ** p).reshape(x.shape[0], -1).sum(-1) for p in q], -1)
            t = np.stack([(np.abs(x) ** p).reshape(x.shape[0], -1).sum(-1) * 4 * (x[0].size + p * 8) for p in q], -1)
        return y, t
    if op == 'stack':
        xs = [numpy_of(v) for v in a[0]]
        if dim == '3d':
            L = a[1] if len(a) > 1 else k['L']
            S = np.stack(xs, axis=1)
            return S.reshape((S.shape[0], S.shape[1] // (L + 1), L + 1) + S.shape[2:]), 0
        if dim == '2d':
            d = -3
        elif len(a) > 1 or 'dim' in k:
            d = a[1] if len(a) > 1 else k['dim']
        else:
            return None
        return np.stack(xs, axis=d), 0
    if op == 'reshape_input':
        x = numpy_of(a[0])
        s = tuple(int(n) for n in np.asarray(a[1] if len(a) > 1 else k['signal_shape']))
        return x.reshape((-1, 1) + s), 0
    if op == 'reshape_output':
        x = numpy_of(a[0])
        b, n = (list(a[1:3]) + [k[m] for m in ('batch_shape', 'n_kept_dims') if m in k])[:2]
        b = tuple(int(m) for m in np.asarray(b))
        return x.reshape(b + x.shape[x.ndim - n:]), 0
    if op == 'shape':
        return np.array(numpy_of(a[0]).shape), 0
    return None


class Tap:
    """A subclass of `base` that checks every primitive call; use `.backend` as the backend."""

    def __init__(self, mon, fw, dim, base, key, double=True):
        self.mon, self.fw, self.dim, self.base, self.key, self.double = mon, fw, dim, base, key, double
        ns = {}
        for op in OPS[dim]:
            if hasattr(base, op):
                ns[op] = staticmethod(self.wrap(op, getattr(base, op)))
        if dim == '2d' and hasattr(base, 'Pad'):
            def Pad(pad_size, input_size):
                inner = base.Pad(pad_size, input_size)
                return lambda x: self.pad2d(inner, list(pad_size), x)
            ns['Pad'] = staticmethod(Pad)
        self.backend = type('Tap' + base.__name__, (base,), ns)

    def pad2d(self, inner, p, x):
        src = numpy_of(x).copy()
        y = inner(x)
        want = src[..., reflect(src.shape[-2], p[0], p[1]), :][..., reflect(src.shape[-1], p[2], p[3])]
        self.judge('Pad', canon(self.fw, y), want, 0, 'Pad(%s) of %s' % (p, src.shape))
        return y

    def wrap(self, op, fn):
        def call(*a, **k):
            try:
                want = expected(self.fw, self.dim, op, a, k)
            except (KeyError, IndexError, ValueError, TypeError):
                want = None
            if want is None and op != 'split_frequency_axis':
                self.mon.event('unmodelled:' + op)
            before = [numpy_of(v).copy() if hasattr(v, 'dtype') else None for v in a]
            y = fn(*a, **k)
            what = '%s(%s)' % (op, ', '.join('%s%s' % (getattr(v, 'dtype', ''), tuple(v.shape)) if hasattr(v, 'shape') else repr(v)[:60] for v in list(a) + list(k.values())))
            if op == 'split_frequency_axis':
                x = canon(self.fw, a[0])
                self.mon.check(len(y) == x.shape[-2], self.key + op, lambda: '%s gives %d parts' % (what, len(y)))
                for i, v in enumerate(y):
                    self.judge(op, canon(self.fw, v), x[..., i:i + 1, :], 0, what + ' part %d' % i)
            elif want is not None:
                plain = op in ('compute_integrals', 'stack', 'reshape_input', 'reshape_output', 'shape', 'unpad')
                if op == 'shape':
                    y0 = np.array([int(n) for n in np.asarray(y)])
                else:
                    y0 = numpy_of(y) if plain else canon(self.fw, y)
                self.judge(op, y0, want[0], want[1], what)
            for v, b in zip(a, before):
                if b is not None:
                    n = numpy_of(v)
                    self.mon.check(n.shape == b.shape and np.array_equal(n, b, equal_nan=n.dtype.kind in 'fc'), self.key + op + ':mutates', lambda: '%s changed its argument' % what)
            return y
        return call

    def judge(self, op, got, want, tol, what):
        m = self.mon
        m.event('op')
        m.event('op:' + op)
        m.state('call', [self.fw, self.dim, what])
        if not m.check(got.shape == want.shape, self.key + op, lambda: '%s has shape %s, expected %s' % (what, got.shape, want.shape)):
            return
        if want.dtype.kind in 'fc' and not np.iscomplexobj(want):
            m.check(not np.iscomplexobj(got), self.key + op, lambda: '%s is complex' % what)
        if got.size == 0:
            return
        if np.any(want):
            m.nontrivial = True
        info = np.finfo(got.dtype) if got.dtype.kind in 'fc' else None
        if info is None:
            m.check(np.array_equal(got, want), self.key + op, lambda: '%s is %s, expected %s' % (what, got, want))
            return
        fin = np.isfinite(want)
        if op == 'compute_integrals':
            fin &= np.abs(want) < 1e37
        w = np.where(fin, want, 0)
        eps = 1.2e-7 if not self.double else max(float(info.eps), 0)
        with np.errstate(all='ignore'):
            d = np.where(fin, np.abs(wide(got) - w), 0)
            under = float(np.sqrt(info.tiny)) * 4 if op in ('modulus', 'modulus_rotation') else 0.  # squares underflow
            t = np.broadcast_to(np.asarray(tol) * eps, d.shape) + under + (float(info.tiny) * 1e6 * (want.size if op == 'compute_integrals' else 1) if np.any(tol) or op in ('ifft', 'irfft', 'rfft', 'cdgmm', 'modulus', 'modulus_rotation', 'compute_integrals', 'cdgmm3d') else 0)
            bad = ~(d <= t)
            m.margin(op, float(np.max(np.where(d > 0, d / np.maximum(t, 1e-300), 0))))
        if bad.any():
            i = np.unravel_index(int(np.argmax(bad)), d.shape)
            m.violate(self.key + op, '%s: %r at %s, expected %r (tolerance %.3g)' % (what, got[i].item(), i, want[i].item(), float(t[i])))
