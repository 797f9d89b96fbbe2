"""3D helper functions."""
import math
import warnings
from .. import gen

TECHNIQUE = 'differential monitor of the 3D helpers against loop references written from their definitions, with metamorphic monitors (linearity, covariance, mass) and a monitor of the floating-point error mode around every call'
NOTE = 'Sampled grids, positions, weights, widths, integers and arrays. No proof.'
RULE = 'seeded random arguments; non-trivial = a non-zero result was compared'
ASSUMPTIONS = ['numpy arguments of the documented shapes', 'positive width']
REQUIRED = {'gaussians': 400, 'zero_weight_stop': 80, 'linearity': 200, 'covariance': 200, 'angles': 400, 'double_factorial': 3000, 'sqrt': 2000, 'sqrt_warning': 200, 'errstate': 4000, 'banks:space': 400, 'banks:frequency': 400, 'banks:pair': 60}


def cases(tier, seed):
    rng = gen.rng_for('H01', tier, seed)
    for i in range(1200 if tier == 'quick' else 10 ** 9):
        yield dict(kind='helpers', mode='helpers', seed=int(rng.integers(1 << 30)), aff='np')


class ErrMode:
    """Sets a random floating-point error mode and checks that a call leaves it alone."""

    def __init__(self, mon, rng, what, quiet=False):
        self.mon, self.what = mon, what
        opts = ['ignore', 'warn'] if quiet else ['ignore', 'warn', 'call']
        self.mode = dict(invalid=gen.pick(rng, opts), over=gen.pick(rng, opts), divide=gen.pick(rng, opts), under='ignore')

    def __enter__(self):
        import numpy as np
        self.saved = np.geterr()
        self.call = np.seterrcall(lambda *a: None)
        np.seterr(**self.mode)
        self.want = np.geterr()

    def __exit__(self, *exc):
        import numpy as np
        got = np.geterr()
        self.mon.event('errstate')
        self.mon.check(got == self.want, 'errstate', lambda: '%s changed the error mode from %s to %s' % (self.what, self.want, got))
        np.seterr(**self.saved)
        np.seterrcall(self.call)


def grid_of(rng):
    import numpy as np
    sh = tuple(int(rng.integers(1, 9)) for _ in range(3))
    k = rng.integers(4)
    if k == 0:
        g = np.mgrid[-(sh[0] // 2):-(sh[0] // 2) + sh[0], -(sh[1] // 2):-(sh[1] // 2) + sh[1], -(sh[2] // 2):-(sh[2] // 2) + sh[2]].astype(float)
    elif k == 1:
        g = np.mgrid[0:sh[0], 0:sh[1], 0:sh[2]]
    elif k == 2:
        g = rng.standard_normal((3,) + sh) * 3
    else:
        g = np.fft.ifftshift(np.mgrid[-(sh[0] // 2):-(sh[0] // 2) + sh[0], -(sh[1] // 2):-(sh[1] // 2) + sh[1], -(sh[2] // 2):-(sh[2] // 2) + sh[2]].astype('float32'), axes=(1, 2, 3))
    return g


def reference(grid, pos, w, sigma):
    import numpy as np
    out = np.zeros((len(pos),) + grid.shape[1:])
    for b in range(len(pos)):
        for i in range(len(pos[b])):
            if w[b][i] == 0:
                break
            for idx in np.ndindex(*grid.shape[1:]):
                d2 = sum((float(grid[(a,) + idx]) - float(pos[b][i][a])) ** 2 for a in range(3))
                out[(b,) + idx] += float(w[b][i]) * math.exp(-d2 / (2 * float(sigma) ** 2)) / (math.sqrt(2 * math.pi) * float(sigma)) ** 3
    return out


def gaussians(mon, rng):
    import numpy as np
    from kymatio.scattering3d.utils import generate_weighted_sum_of_gaussians as g
    grid = grid_of(rng)
    B, n = int(rng.integers(1, 4)), int(rng.integers(0, 5))
    sigma = float(gen.pick(rng, [.3, .7, 1., 1.5, 4., float(rng.random() + .2)]))
    pos = rng.standard_normal((B, n, 3)) * 2
    w = rng.standard_normal((B, n)) * 10. ** rng.integers(-3, 4)
    if rng.random() < .3:
        w = rng.integers(-3, 9, (B, n))
        w[w == 0] = 1
    if rng.random() < .4 and n:
        w[int(rng.integers(B)), int(rng.integers(n))] = 0
    if rng.random() < .3:
        pos = np.round(pos)
    if rng.random() < .25:
        pos, w = pos.astype('float32'), w.astype('float32')
    if grid.dtype == np.float32 and grid.size > 300 or grid[0].size > 200:
        grid = grid[:, :4, :5, :5]
    keep = [a.copy() for a in (grid, pos, w)]
    with ErrMode(mon, rng, 'generate_weighted_sum_of_gaussians'):
        y = g(grid, pos, w, sigma)
    mon.event('gaussians')
    mon.state('gaussians', [list(grid.shape), str(grid.dtype), str(w.dtype), B, n, bool((w == 0).any())])
    mon.check(all(np.array_equal(a, b) for a, b in zip(keep, (grid, pos, w))), 'gaussians:inputs', 'arguments were changed')
    ref = reference(grid, pos, w, sigma)
    scale = float(np.abs(w).max() if w.size else 0) * max(n, 1) / (math.sqrt(2 * math.pi) * sigma) ** 3
    single = 'float32' in (str(grid.dtype), str(w.dtype), str(pos.dtype))
    tol = 2e-5 if single else 1e-11
    mon.check(y.dtype == np.float64, 'gaussians:dtype', lambda: str(y.dtype))
    mon.close(y, ref, 'gaussians', tol, scale=scale)
    if (w == 0).any():
        mon.event('zero_weight_stop')
    if n == 0 or (w == 0).any() or scale == 0:
        return
    # linearity in the weights
    a, w2 = float(rng.standard_normal()), rng.standard_normal((B, n))
    mon.event('linearity')
    comb = a * w + w2
    if (comb != 0).all():
        s2 = abs(a) * scale + float(np.abs(w2).max()) * n / (math.sqrt(2 * math.pi) * sigma) ** 3
        mon.close(g(grid, pos, comb, sigma), a * y + g(grid, pos, w2, sigma), 'gaussians:linear', tol, scale=s2)
    # translation of grid and positions, permutation of points and of axes
    mon.event('covariance')
    t = rng.integers(-3, 4, 3)
    mon.close(g(grid + t[:, None, None, None], pos + t, w, sigma), y, 'gaussians:translation', max(tol, 1e-9), scale=scale)
    p = rng.permutation(n)
    mon.close(g(grid, pos[:, p], w[:, p], sigma), y, 'gaussians:order', tol, scale=scale)
    ax = rng.permutation(3)
    mon.close(g(grid[ax], pos[:, :, ax], w, sigma), y, 'gaussians:axes', tol, scale=scale)
    c = float(gen.pick(rng, [.5, 2., 4.]))
    mon.close(g(grid * c, pos * c, w, sigma * c) * c ** 3, y, 'gaussians:dilation', max(tol, 1e-10), scale=scale)
    if rng.random() < .1:
        mon.event('mass')
        G = np.mgrid[-12:13, -12:13, -12:13].astype(float)
        s = float(1 + rng.random() * .6)
        one = g(G, np.clip(pos, -2, 2), w, s).sum((1, 2, 3))
        mon.close(one, np.asarray(w, float).sum(1), 'gaussians:mass', 1e-4, scale=float(np.abs(w).sum(1).max()))


def angles(mon, rng):
    import numpy as np
    from kymatio.scattering3d.utils import get_3d_angles
    g = grid_of(rng)
    if rng.random() < .2:
        g = g.astype('float32')
    keep = g.copy()
    with ErrMode(mon, rng, 'get_3d_angles'), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        polar, az = get_3d_angles(g)
    mon.event('angles')
    mon.check(not ws, 'angles:warning', lambda: str([str(x.message) for x in ws]))
    mon.check(np.array_equal(keep, g), 'angles:inputs', 'the grid was changed')
    if not mon.check(polar.shape == az.shape == g.shape[1:], 'angles:shape', lambda: '%s %s' % (polar.shape, az.shape)):
        return
    tol = 2e-6 if polar.dtype == np.float32 else 1e-12
    z, y, x = (v.astype(float) for v in g)
    r = np.sqrt(x * x + y * y + z * z)
    # the polar angle is measured from the negative z axis
    mon.close(np.sin(polar.astype(float)) * np.cos(az.astype(float)) * r, x, 'angles:x', tol, scale=1 + float(r.max()))
    mon.close(np.sin(polar.astype(float)) * np.sin(az.astype(float)) * r, y, 'angles:y', tol, scale=1 + float(r.max()))
    mon.close(-np.cos(polar.astype(float)) * r, z, 'angles:z', tol, scale=1 + float(r.max()))
    eps = 1e-6
    mon.check(bool(((polar >= -eps) & (polar <= np.pi + eps)).all()), 'angles:polar_range', lambda: '%g %g' % (polar.min(), polar.max()))
    mon.check(bool((np.abs(az) <= np.pi + eps).all()), 'angles:azimuth_range', lambda: '%g %g' % (az.min(), az.max()))
    mon.check(bool(np.isfinite(polar).all() and np.isfinite(az).all()), 'angles:finite')


def double(mon, rng):
    import numpy as np
    from kymatio.scattering3d.utils import double_factorial
    for _ in range(30):
        i = int(rng.integers(-5, 60)) if rng.random() < .9 else int(rng.integers(60, 160))
        want, k = 1, i
        while k > 0:
            want, k = want * k, k - 2
        arg = gen.pick(rng, [i, np.int64(i), np.int32(i)])
        with ErrMode(mon, rng, 'double_factorial'):
            got = double_factorial(arg)
        mon.event('double_factorial')
        mon.state('double_factorial', i)
        mon.check(got == want, 'double_factorial', lambda: '%d!! is %r, expected %d' % (i, got, want))
        mon.nontrivial = True


def roots(mon, rng):
    import numpy as np
    from kymatio.scattering3d.utils import sqrt
    for _ in range(20):
        sh = tuple(int(rng.integers(0, 5)) for _ in range(int(rng.integers(0, 4))))
        dt = gen.pick(rng, ['float32', 'float64', 'complex64', 'complex128', 'int64'])
        x = rng.standard_normal(sh) * 10. ** rng.integers(-8, 9)
        x = np.asarray(x)
        if dt.startswith('complex'):
            x = x + 1j * rng.standard_normal(sh)
        elif rng.random() < .6:
            x = np.abs(x)
        if rng.random() < .2 and x.size:
            x = np.where(rng.random(sh) < .3, 0, x)
        special = rng.random() < .2 and x.size and dt != 'int64'
        x = np.asarray(x).astype(dt)
        if special:
            x = np.where(rng.random(sh) < .3, np.array(gen.pick(rng, [np.nan, np.inf]), dt), x)
        x = np.asarray(x)
        neg = x.dtype.kind != 'c' and bool((x[~np.isnan(x)] < 0).any())
        keep = x.copy()
        with ErrMode(mon, rng, 'sqrt', quiet=True), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            y = sqrt(x)
        mon.event('sqrt')
        with np.errstate(all='ignore'):
            want = np.sqrt(x)
        mon.state('sqrt', [dt, list(sh), neg])
        mon.check(np.array_equal(keep, x, equal_nan=True), 'sqrt:inputs', 'the argument was changed')
        mon.same(y, want, 'sqrt', '%s %s' % (dt, sh))
        if y.dtype.kind == 'f' and y.size:
            ok = np.isfinite(y)
            mon.close(y[ok].astype(float) ** 2, x[ok].astype(float), 'sqrt:square', 1e-6 if dt == 'float32' else 1e-12)
        rt = [str(v.message) for v in ws if issubclass(v.category, RuntimeWarning)]
        if neg:
            mon.event('sqrt_warning')
            mon.check(len(rt) == 1 and 'egative' in rt[0], 'sqrt:warning', lambda: 'negative values in %s: warnings %s' % (x.ravel()[:4], rt))
        else:
            mon.check(not ws, 'sqrt:spurious', lambda: 'warnings for %s: %s' % (x.ravel()[:4], [str(v.message) for v in ws]))
    # a failing call or one turned into an exception also leaves the error mode alone
    with ErrMode(mon, rng, 'failing sqrt', quiet=True):
        try:
            sqrt(np.array([object()], dtype=object) if rng.random() < .5 else np.array(['a']))
        except TypeError:
            mon.event('sqrt_error')
    with ErrMode(mon, rng, 'sqrt with warnings as errors', quiet=True), warnings.catch_warnings():
        warnings.simplefilter('error')
        try:
            sqrt(np.array([-1.]))
            mon.violate('sqrt:warning', 'no warning for -1')
        except RuntimeWarning:
            pass


def signal_harmonics(shape, l, sigma):
    """The wavelets of degree l and width sigma as functions of space."""
    import numpy as np
    from scipy.special import sph_harm, gamma
    ax = [np.fft.fftfreq(n) * n for n in shape]
    w0, w1, w2 = np.meshgrid(*ax, indexing='ij')
    r = np.sqrt(w0 ** 2 + w1 ** 2 + w2 ** 2)
    env = np.exp(-.5 * (r / sigma) ** 2) / sigma ** 3
    if l == 0:
        return env[None].astype(complex) / (2 * np.pi) ** 1.5
    az, pol = np.arctan2(w1, w2), np.arctan2(w0, np.sqrt(w1 ** 2 + w2 ** 2)) + np.pi / 2
    f = 1
    for i in range(l + 1, 0, -2):
        f *= i
    norm = 1 / (2 * np.pi * math.sqrt(l + .5) * f) if l % 2 == 0 else 1 / (2 ** ((l + 3) / 2) * math.sqrt(math.pi * (2 * l + 1)) * gamma((l + 1) / 2 + 1))
    return np.stack([norm * sph_harm(m, l, az, pol) * (r / sigma) ** l * env for m in range(-l, l + 1)])


def banks(mon, rng):
    """Filter banks in space and in frequency."""
    import numpy as np
    from .. import refs
    from kymatio.scattering3d.filter_bank import solid_harmonic_filter_bank, gaussian_filter_bank
    sh = tuple(int(rng.integers(2, 13)) for _ in range(3))
    J, L, s0 = int(rng.integers(0, 4)), int(rng.integers(0, 7)), gen.pick(rng, [1, 1., .5, 2, .8, float(rng.uniform(.3, 3))])
    fourier = bool(rng.integers(2))
    args = {} if fourier and rng.random() < .5 else dict(fourier=fourier)
    F = solid_harmonic_filter_bank(*sh, J, L, s0, **args)
    G = gaussian_filter_bank(*sh, J, s0, **args)
    mon.event('banks:' + ('frequency' if fourier else 'space'))
    mon.state('banks', [list(sh), J, L, s0, fourier])
    what = 'shape=%s J=%d L=%d sigma_0=%g fourier=%s' % (sh, J, L, s0, fourier)
    if not mon.check(len(F) == L + 1 and len(G) == J + 1, 'banks:length', lambda: '%d degrees, %d scales; %s' % (len(F), len(G), what)):
        return
    for j in range(J + 1):
        s = s0 * 2. ** j
        for l in range(L + 1):
            want = refs.solid_harmonics(sh, l, s) if fourier else signal_harmonics(sh, l, s)
            if np.abs(want).max() < 1e-30:
                continue
            mon.close(np.asarray(F[l][j]), want, 'banks:solid', 4e-5, scale=float(np.abs(want).max()), atol=1e-6 if fourier else 0, detail='degree %d scale %d %s' % (l, j, what))
        want = (refs.solid_harmonics if fourier else signal_harmonics)(sh, 0, s)[0]
        mon.close(np.asarray(G[j]), want, 'banks:gaussian', 2e-5, scale=float(np.abs(want).max()), detail='scale %d %s' % (j, what))
    # the one is the transform of the other where neither overlaps itself
    n, s, l = int(rng.integers(16, 21)), 1.9, int(rng.integers(0, 4))
    sh = (n, int(rng.integers(16, 21)), int(rng.integers(16, 21)))
    if rng.random() < .1:
        mon.event('banks:pair')
        a = solid_harmonic_filter_bank(*sh, 0, l, s)[l][0]
        b = solid_harmonic_filter_bank(*sh, 0, l, s, fourier=False)[l][0]
        mon.close(np.fft.fftn(b, axes=(1, 2, 3)), a, 'banks:pair', .02, scale=float(np.abs(a).max()), detail='degree %d shape %s' % (l, sh))


def run_case(case, mon):
    rng = gen.rng_for('h', case['seed'])
    for _ in range(5):
        gaussians(mon, rng)
        angles(mon, rng)
    double(mon, rng)
    roots(mon, rng)
    banks(mon, rng)
    mon.sample = {k: mon.events[k] for k in ('gaussians', 'angles', 'double_factorial', 'sqrt')}
