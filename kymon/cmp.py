"""Comparison of two outputs of one transform, in single or double precision."""
import numpy as np
from . import fe

EPS = {'single': (1e-4, 5e-6, 3e-7, 3e-6), 'double': (1e-9, 1e-10, 1e-12, 1e-10)}


def plain(v):
    """Metadata value -> comparable Python value."""
    if isinstance(v, (list, tuple, range)):
        return tuple(plain(w) for w in v)
    if isinstance(v, np.ndarray):
        return tuple(plain(w) for w in v.tolist())
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and np.isfinite(v) and v == int(v):
        return int(v)
    return v


def meta_of(p):
    return None if p is None else {k: plain(v) for k, v in sorted(p.items())}


def atol(dim, kw, xs, prec, shape=None):
    r, a, s, e = EPS[prec]
    if dim == '3d':
        q = np.array(list(kw.get('integral_powers', (0.5, 1.0, 2.0))), float)
        nv = float(np.prod(kw['shape']))
        e = e * xs
        with np.errstate(all='ignore'):
            fl = np.where(q < 1, np.power(e, q) * np.where(q < 0.4, 1.0, 0.05), q * e * np.power(max(xs, 1e-300), q - 1)) * nv
        return fl
    t = a * xs
    n = 1
    if dim in ('1d', 'jtfs') and kw.get('T') == 'global':
        n *= 4 * kw['shape']
    if dim == 'jtfs' and kw.get('F') == 'global':
        q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
        n *= (kw['J'] + 1) * q + 8 * 2 ** kw['J_fr']
    if n > 1:
        t = max(t, s * xs * n)
    return t


def close(mon, dim, kw, got, want, xs, key, prec='single', detail='', axis=None):
    """got, want: arrays of one path (or a stack of paths)."""
    mon.checks += 1
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        mon.violate(key + ':shape', '%s shape %s, expected %s' % (detail, got.shape, want.shape))
        return False
    if got.size == 0:
        return True
    w = want.astype(np.float64)
    if np.any(w != 0):
        mon.nontrivial = True
    # path maximum: over the path's own (trailing) axes
    if dim == '3d':
        scale = np.abs(w).max(axis=tuple(range(w.ndim - 3)), keepdims=True) if w.ndim > 3 else np.abs(w)
    else:
        nd = {'1d': 1, '2d': 2, 'jtfs': 2 if kw.get('format') == 'joint' else 1}[dim]
        nd = min(nd, w.ndim)
        scale = np.abs(w).max(axis=tuple(range(w.ndim - nd, w.ndim)), keepdims=True)
    tol = EPS[prec][0] * scale + atol(dim, kw, xs, prec)
    with np.errstate(all='ignore'):
        d = np.abs(got.astype(np.float64) - w)
    bad = ~(d <= tol)
    with np.errstate(all='ignore'):
        mon.margin(key, np.max(np.where(d == 0, 0, d / np.maximum(tol, 1e-300))))
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d / np.maximum(np.broadcast_to(tol, d.shape), 1e-300), np.inf))), d.shape)
        mon.violate(key, '%s: %d of %d values differ, worst at %s: got %r, expected %r, tolerance %.3g (input sup %.3g)' % (
            detail, int(bad.sum()), d.size, i, got[i].item(), want[i].item(), float(np.broadcast_to(tol, d.shape)[i]), xs))
        return False
    return True


def outputs(mon, dim, kw, ya, yb, xs, key, prec='single', meta=True, detail=''):
    """ya (judged) against yb (expected), both lists of (metadata, array)."""
    if not mon.check(len(ya) == len(yb), key + ':paths', lambda: '%s: %d paths, expected %d' % (detail, len(ya), len(yb))):
        return False
    ok = True
    for i, ((pa, a), (pb, b)) in enumerate(zip(ya, yb)):
        mon.event('path_compared')
        if meta:
            ok &= mon.check(meta_of(pa) == meta_of(pb), key + ':meta', lambda: '%s path %d: %s, expected %s' % (detail, i, meta_of(pa), meta_of(pb)))
        ok &= close(mon, dim, kw, a, b, xs, key, prec, '%s path %d %s' % (detail, i, (pb or {}).get('n', '')))
        if not ok:
            break
    return ok


def identical(mon, ya, yb, key, detail=''):
    """Bit-identical outputs (values, dtype, metadata)."""
    if not mon.check(len(ya) == len(yb), key + ':paths', lambda: '%s: %d paths, expected %d' % (detail, len(ya), len(yb))):
        return False
    for i, ((pa, a), (pb, b)) in enumerate(zip(ya, yb)):
        if not (mon.check(meta_of(pa) == meta_of(pb), key + ':meta', lambda: '%s path %d' % (detail, i)) and mon.same(a, b, key, '%s path %d' % (detail, i))):
            return False
    return True
