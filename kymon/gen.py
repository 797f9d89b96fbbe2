"""Seeded generators of configurations and signals (pure Python/numpy, JSON-able configurations)."""
import math
import zlib
import numpy as np


def rng_for(*parts):
    return np.random.default_rng([zlib.crc32(repr(p).encode()) for p in parts])


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


# --------------------------------------------------------------- signals
KINDS = ['noise', 'impulse', 'step', 'chirp', 'sparse', 'tone', 'heavy', 'alternating', 'ramp', 'impulses_edge', 'constant', 'burst']


def signal(kind, shape, seed, amp=1.0, dtype='float64'):
    """A real array of the given shape; the kind applies along the flattened last axes."""
    rng = rng_for('sig', kind, tuple(shape), seed)
    n = int(np.prod(shape[-1:])) if shape else 1
    full = tuple(shape)
    t = np.arange(n) / max(n, 1)
    if kind == 'noise':
        x = rng.standard_normal(full)
    elif kind == 'impulse':
        x = np.zeros(full); x.reshape(-1)[int(rng.integers(x.size))] = 1.0
    elif kind == 'step':
        x = (rng.random(full[:-1] + (1,)) < t).astype(float) - 0.3
        x = np.broadcast_to(x, full).copy()
    elif kind == 'chirp':
        x = np.cos(2 * np.pi * (rng.random(full[:-1] + (1,)) * n * 0.25 * t ** 2 + rng.random() * 8 * t))
    elif kind == 'sparse':
        x = rng.standard_normal(full) * (rng.random(full) < 0.1)
    elif kind == 'tone':
        x = np.sin(2 * np.pi * (rng.random(full[:-1] + (1,)) * n * 0.5 * t + rng.random()))
    elif kind == 'heavy':
        x = rng.standard_cauchy(full); x = np.clip(x, -1e4, 1e4)
    elif kind == 'alternating':
        x = np.broadcast_to((-1.0) ** np.arange(n), full) * rng.standard_normal(full[:-1] + (1,))
    elif kind == 'ramp':
        x = np.broadcast_to(t, full) * rng.standard_normal(full[:-1] + (1,)) + rng.standard_normal(full[:-1] + (1,))
    elif kind == 'impulses_edge':
        x = np.zeros(full); x[..., 0] = 1.0; x[..., -1] = -2.0
    elif kind == 'constant':
        x = np.broadcast_to(rng.standard_normal(full[:-1] + (1,)), full).copy()
    elif kind == 'burst':
        c, w = rng.random(), 0.02 + 0.1 * rng.random()
        e = ((t - c) / w) ** 2
        x = rng.standard_normal(full) * np.exp(e.min() - e)
    elif kind == 'zeros':
        x = np.zeros(full)
    else:
        raise ValueError(kind)
    return np.ascontiguousarray(amp * x).astype(dtype)


def sigspec(rng, shape, amps=(1.0, 1.0, 1.0, 1e-6, 1e4)):
    return dict(kind=pick(rng, KINDS), shape=list(shape), seed=int(rng.integers(1 << 30)), amp=float(pick(rng, amps)))


def make(spec, dtype='float64'):
    return signal(spec['kind'], tuple(spec['shape']), spec['seed'], spec.get('amp', 1.0), dtype)


def lead(rng, maxrank=2, maxsize=3):
    r = int(rng.integers(0, maxrank + 1))
    return [int(rng.integers(1, maxsize + 1)) for _ in range(r)]


# --------------------------------------------------------------- configurations
def length1d(rng, lo=16, hi=1024):
    style = rng.integers(4)
    if style == 0:
        return 2 ** int(rng.integers(int(math.ceil(math.log2(lo))), int(math.log2(hi)) + 1))
    if style == 1:
        p = 2 ** int(rng.integers(int(math.ceil(math.log2(lo))), int(math.log2(hi)) + 1))
        return max(lo, min(hi, p + int(pick(rng, [-1, 1]))))
    return int(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def cfg1d(rng, lo=16, hi=1024, modes=('local', 'none', 'global'), maxQ=12, max_J=None):
    N = length1d(rng, lo, hi)
    Jmax = int(math.floor(math.log2(N)))
    if max_J:
        Jmax = min(Jmax, max_J)
    J = int(rng.integers(1, Jmax + 1))
    q1 = int(pick(rng, [1, 1, 2, 3, 4, 5, 8, maxQ]))
    Q = pick(rng, [q1, [q1], [q1, 1], [q1, min(q1, 2)], [q1, min(q1, 2)], [1, 2] if q1 < 4 else [4, 8] if q1 < 8 else [q1, q1]])
    kw = dict(J=J, shape=N, Q=Q)
    mode = pick(rng, modes)
    if mode == 'none':
        kw['T'] = 0
    elif mode == 'global':
        kw['T'] = 'global'
    else:
        s = rng.integers(4)
        if s == 1:
            kw['T'] = int(rng.integers(1, N + 1))
        elif s == 2:
            kw['T'] = float(round(math.exp(rng.uniform(0, math.log(N))), 3))
            kw['T'] = min(max(kw['T'], 1.0), float(N))
        elif s == 3:
            kw['T'] = 2 ** int(rng.integers(0, int(math.log2(N)) + 1))
        T = kw.get('T', 2 ** J)
        l2 = int(math.floor(math.log2(T)))
        s = rng.integers(3)
        if s == 1:
            kw['stride'] = 2 ** int(rng.integers(0, l2 + 1))
        elif s == 2 and chance(rng, .5):
            kw['oversampling'] = int(rng.integers(0, l2 + 1))
    kw['max_order'] = int(pick(rng, [1, 2, 2, 2]))
    if kw.get('T') == 0:
        kw['out_type'] = 'list'
    return kw


def cost1d(kw):
    q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
    q2 = 1 if isinstance(kw['Q'], int) or len(kw['Q']) < 2 else kw['Q'][1]
    return kw['J'] * q * (1 + (kw.get('max_order', 2) > 1) * kw['J'] * q2)


def cfgjtfs(rng, lo=64, hi=1024, modes=('local', 'none', 'global'), modes_fr=('local', 'none', 'global')):
    while True:
        N = length1d(rng, lo, hi)
        Jmax = int(math.floor(math.log2(N)))
        J = int(rng.integers(2, Jmax + 1))
        q1 = int(pick(rng, [1, 2, 3, 4, 6, 8]))
        Q = pick(rng, [q1, [q1], [q1, 1], [q1, min(q1, 2)]])
        n_in = (J + 1) * q1
        J_fr = int(rng.integers(1, max(2, int(math.log2(n_in)) + 1)))
        if 2 ** J_fr > n_in:
            continue
        kw = dict(J=J, shape=N, Q=Q, J_fr=J_fr)
        if chance(rng, .3):
            kw['Q_fr'] = pick(rng, [1, 2, [1], [2]])
        mode = pick(rng, modes)
        if mode == 'none':
            kw['T'] = 0
        elif mode == 'global':
            kw['T'] = 'global'
        else:
            s = rng.integers(3)
            if s == 1:
                kw['T'] = int(rng.integers(1, N + 1))
            elif s == 2:
                kw['T'] = 2 ** int(rng.integers(0, int(math.log2(N)) + 1))
            T = kw.get('T', 2 ** J)
            if chance(rng, .4):
                kw['stride'] = 2 ** int(rng.integers(0, int(math.log2(T)) + 1))
        mode = pick(rng, modes_fr)
        if mode == 'none':
            kw['F'] = 0
        elif mode == 'global':
            kw['F'] = 'global'
        else:
            if chance(rng, .4):
                kw['F'] = int(rng.integers(1, 2 ** J_fr + 1))
            F = kw.get('F', 2 ** J_fr)
            if F > n_in:
                continue
            if chance(rng, .4):
                kw['stride_fr'] = 2 ** int(rng.integers(0, int(math.log2(F)) + 1))
        kw['format'] = pick(rng, ['time', 'joint'])
        kw['out_type'] = pick(rng, ['list', 'array'])
        if kw.get('T') == 0:
            kw['out_type'] = 'list'
        if kw['format'] == 'joint' and kw.get('F') == 0:
            kw['out_type'] = 'list'
        return kw


def cfg2d(rng, hi=48, maxJ=3, maxL=8):
    J = int(rng.integers(1, maxJ + 1))
    lo = 2 ** J
    M = int(rng.integers(lo, max(lo + 1, hi + 1)))
    N = M if chance(rng, .3) else int(rng.integers(lo, max(lo + 1, hi + 1)))
    if chance(rng, .15):
        M = lo
    kw = dict(J=J, shape=[M, N], L=int(pick(rng, [1, 2, 3, 4, 5, 6, 8, 8])), max_order=int(pick(rng, [1, 2, 2])))
    kw['L'] = min(kw['L'], maxL)
    if chance(rng, .25):
        kw['pre_pad'] = True
    if chance(rng, .4):
        kw['out_type'] = 'list'
    return kw


def in_shape2d(kw):
    """Spatial shape of the inputs of a 2D transform."""
    M, N = kw['shape']
    if kw.get('pre_pad'):
        P = 2 ** kw['J']
        return [(M // P + 2) * P, (N // P + 2) * P]
    return [M, N]


def cfg3d(rng, hi=12, maxJ=2, maxL=3):
    J = int(rng.integers(0, maxJ + 1))
    s = rng.integers(3)
    n = lambda: int(rng.integers(4, hi + 1))
    if s == 0:
        m = n(); shape = [m, m, m]
    else:
        shape = [n(), n(), n()]
    kw = dict(J=J, shape=shape, L=int(rng.integers(0, maxL + 1)), max_order=int(pick(rng, [1, 2, 2])),
              rotation_covariant=bool(chance(rng, .7)), sigma_0=float(pick(rng, [1, 1, 0.8, 1.5, 2.0])))
    s = rng.integers(4)
    if s == 0:
        kw['integral_powers'] = [1.0]
    elif s == 1:
        kw['integral_powers'] = [0.5, 1.0, 2.0, 3.0]
    elif s == 2:
        kw['integral_powers'] = [2.0, 1.5]
    return kw


def cfg(dim, rng, **k):
    return {'1d': cfg1d, '2d': cfg2d, '3d': cfg3d, 'jtfs': cfgjtfs}[dim](rng, **k)


def in_shape(dim, kw):
    if dim in ('1d', 'jtfs'):
        return [kw['shape']]
    if dim == '2d':
        return in_shape2d(kw)
    return list(kw['shape'])


def big(dim, rng, budget=1.0):
    """A configuration beyond the usual sizes (many filters, many scales, long signals) that still runs within a second or so."""
    while True:
        if dim == '1d':
            kw = cfg1d(rng, lo=pick(rng, [200, 500, 1000]), hi=pick(rng, [1100, 4096, 16384]), maxQ=pick(rng, [12, 16, 20, 24, 32]))
            if kw['J'] < 4:
                continue
            if chance(rng, .5):
                q = int(pick(rng, [10, 12, 16, 20, 24]))
                kw['Q'] = pick(rng, [q, [q, 1], [q, 2]])
            if cost1d(kw) * kw['shape'] > 2e7 * budget or cost1d(kw) > 6000 * budget:
                continue
        elif dim == '2d':
            kw = cfg2d(rng, hi=pick(rng, [40, 70, 130]), maxJ=pick(rng, [3, 4, 5, 6]))
            if chance(rng, .4):
                kw['L'] = int(pick(rng, [7, 9, 10, 12, 16]))
            M, N = in_shape2d(kw)
            L, J = kw['L'], kw['J']
            paths = 1 + L * J + (kw['max_order'] > 1) * L * L * J * (J - 1) // 2
            if L * J * M * N > 1.5e5 * budget or paths * M * N > 2e6 * budget or max(M, N) < 40 and L < 9:
                continue
        elif dim == '3d':
            kw = cfg3d(rng, hi=pick(rng, [12, 20, 36]), maxJ=pick(rng, [2, 3, 4]), maxL=pick(rng, [1, 3, 5, 7]))
            J, L = kw['J'], kw['L']
            paths = (J + 1) * (1 + (kw['max_order'] > 1) * J / 2) * ((L + 1) ** 2 if kw['rotation_covariant'] else L + 1)
            n = kw['shape'][0] * kw['shape'][1] * kw['shape'][2]
            if paths * n > 6e6 * budget or n < 2000 and L < 4:
                continue
            if chance(rng, .5):
                kw['integral_powers'] = pick(rng, [[3.5, 4.0], [0.25, 0.75, 1.25], [1, 2], [5.0], [2.0, 2.5, 3.0, 3.25], [1.0] * 5])
        else:
            kw = cfgjtfs(rng, lo=pick(rng, [200, 500]), hi=pick(rng, [1100, 4096]))
            if chance(rng, .6):
                q = int(pick(rng, [8, 12, 16, 16, 24]))
                kw['Q'] = pick(rng, [q, [q, 1], [q, 2]])
                n_in = (kw['J'] + 1) * q
                kw['J_fr'] = int(rng.integers(2, int(math.log2(n_in)) + 1))
                if kw.get('F') not in (None, 0, 'global'):
                    kw['F'] = min(kw['F'], 2 ** kw['J_fr'])
                    if kw.get('stride_fr', 1) > kw['F']:
                        continue
                elif kw.get('stride_fr', 1) > 2 ** kw['J_fr'] or 2 ** kw['J_fr'] > n_in:
                    continue
            q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
            q2 = 1 if isinstance(kw['Q'], int) or len(kw['Q']) < 2 else kw['Q'][1]
            ls = math.log2(kw['stride']) if 'stride' in kw else 99 if kw.get('T') in (0, 'global') else math.log2(kw.get('T', 2 ** kw['J']))
            rows = max((kw['J'] + 1) * q, 4 * 2 ** kw['J_fr'])
            work = 4 * kw['shape'] * rows * (2 * kw['J_fr'] + 1) * q2 * sum(2.0 ** -min(j, ls) for j in range(kw['J'] + 1))
            if work > 3e7 * budget:
                continue
        return kw


def large(dim, kw):
    """Whether running `kw` over many elements would take long."""
    n = int(np.prod(in_shape(dim, kw)))
    return n > {'1d': 1024, 'jtfs': 400, '2d': 1600, '3d': 1400}[dim] or np.max(kw.get('Q', 1)) > 8 or kw.get('L', 1) > 8 or (dim == '3d' and kw.get('L', 1) > 3)


def tiny(dim, rng):
    """A configuration cheap enough for thousands of elements."""
    while True:
        if dim == '1d':
            kw = cfg1d(rng, hi=40, lo=8, maxQ=2)
            if cost1d(kw) > 12:
                continue
        elif dim == '2d':
            kw = cfg2d(rng, hi=9, maxJ=2, maxL=2)
        elif dim == '3d':
            kw = cfg3d(rng, hi=5, maxJ=1, maxL=1)
        else:
            kw = cfgjtfs(rng, lo=16, hi=40)
            if (kw['J'] + 1) * np.max(kw['Q']) > 6:
                continue
        if kw.get('T') == 0 or kw.get('F') == 0:
            continue
        return kw


def bulk(dim, rng):
    """Much data, few filters."""
    if dim == '1d':
        return dict(J=int(rng.integers(1, 4)), shape=int(rng.integers(20000, 140000)), Q=1)
    if dim == '2d':
        n = [int(v) for v in rng.integers(150, 420, 2)]
        return dict(J=int(rng.integers(1, 3)), shape=n, L=int(rng.integers(1, 3)), max_order=2)
    if dim == '3d':
        n = [int(v) for v in rng.integers(28, 48, 3)]
        return dict(J=int(rng.integers(0, 2)), shape=n, L=int(rng.integers(0, 2)), sigma_0=1.0, max_order=2, rotation_covariant=bool(rng.integers(2)), integral_powers=[1.0, 2.0])
    return dict(J=2, J_fr=1, shape=int(rng.integers(8000, 20000)), Q=int(rng.integers(1, 3)))


BIG = {'numpy': .02, 'sklearn': .02, 'torch': .02, 'tensorflow': .01, 'jax': 0, 'keras': 0}


def fe_cfg(fe, dim, rng, small=False, large=True):
    """A configuration of transform `dim` usable by frontend `fe` (keeps jax/tf cases small, but for a few large ones)."""
    if large and chance(rng, BIG[fe]):
        kw = big(dim, rng, .15 if small else .5)
        if fe == 'sklearn':
            if kw.get('T') == 0 or (dim == 'jtfs' and kw.get('format') == 'joint' and kw.get('F') == 0):
                return fe_cfg(fe, dim, rng, small, large)
            kw.pop('out_type', None)
        return kw
    hi = {'1d': 256, '2d': 20, '3d': 8, 'jtfs': 128} if small else {'1d': 1024, '2d': 40, '3d': 11, 'jtfs': 400}
    while True:
        if dim == '1d':
            kw = cfg1d(rng, hi=hi[dim], lo=8, maxQ=8)
            if cost1d(kw) > (150 if small else 600):
                continue
        elif dim == '2d':
            kw = cfg2d(rng, hi=hi[dim], maxJ=3 if not small else 2, maxL=8 if not small else 4)
        elif dim == '3d':
            kw = cfg3d(rng, hi=hi[dim], maxJ=2, maxL=3 if not small else 2)
        else:
            kw = cfgjtfs(rng, lo=32, hi=hi[dim])
            q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
            if (kw['J'] + 1) * q > (20 if small else 48):
                continue
        if fe in ('sklearn', 'keras'):
            if kw.get('T') == 0 or (dim == 'jtfs' and kw.get('format') == 'joint' and kw.get('F') == 0):
                continue
            kw.pop('out_type', None)
        if fe == 'keras':
            kw.pop('stride', None)
        return kw


def pairs(frontends=None, dims=None):
    from . import fe as F
    return [(f, d) for f in (frontends or F.FRONTENDS) for d in F.AVAILABLE[f] if not dims or d in dims]


def small_fe(f):
    return f in ('jax', 'tensorflow', 'keras')
