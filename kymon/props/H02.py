"""1D building blocks: filter-bank helpers, parameter helpers and the functional cores."""
import inspect
import math
import warnings
from .. import gen, refs

TECHNIQUE = 'differential monitor of the 1D helper functions and functional cores against definitions written as plain numpy, over random arguments and random filter banks; monitors on argument mutation, warnings raised and exceptions'
NOTE = 'Sampled arguments; the cores are driven with the numpy backend and with banks whose levels are unrelated arrays, so that every lookup is visible. No proof.'
RULE = 'seeded random arguments; non-trivial = a non-zero result was compared'
ASSUMPTIONS = ['arguments of the documented types and ranges']
REQUIRED = {'border': 2000, 'padding': 2000, 'padding_refused': 500, 'parse_T': 2000, 'parse_T_refused': 500, 'choice_P': 2000, 'morlet': 1500, 'gauss': 500,
            'sigma_psi': 2000, 'support': 1000, 'support_warned': 150, 'subsampling': 2000, 'xi_max': 2000, 'anden': 750, 'spin': 400, 'factory': 400,
            'core': 750, 'core:widthfirst': 500, 'core:frequency': 750, 'core:averaging': 750, 'core:joint': 300}


def cases(tier, seed):
    rng = gen.rng_for('H02', tier, seed)
    for i in range(4000 if tier == 'quick' else 10 ** 9):
        yield dict(kind=['helpers', 'bank', 'core', 'joint'][i % 4], mode='helpers', seed=int(rng.integers(1 << 30)), aff='np')


def refused(fn):
    try:
        fn()
    except ValueError:
        return True
    except Exception:
        return False
    return False


# ------------------------------------------------------------------ parameters
def parameters(mon, rng):
    import numpy as np
    from kymatio.scattering1d.utils import compute_border_indices, compute_padding, parse_T
    ri = lambda a, b: int(rng.integers(a, b + 1))
    lt, J = ri(0, 14), ri(0, 14)
    i0 = ri(0, 1 << ri(0, 16))
    i1 = i0 + ri(0, 1 << ri(0, 16))
    a, b = compute_border_indices(lt, J, i0, i1)
    mon.event('border')
    keys = set(range(max(lt, J) + 1))
    mon.check(keys <= set(a) and keys <= set(b), 'border:keys', lambda: '%s %s' % (sorted(a), sorted(b)))
    for k in keys & set(a) & set(b):
        mon.check(a[k] == -(-i0 // 2 ** k) and b[k] == -(-i1 // 2 ** k), 'border', lambda: 'log2_T=%d J=%d i0=%d i1=%d: %s..%s at level %d' % (lt, J, i0, i1, a[k], b[k], k))

    n = ri(1, 1 << ri(1, 14))
    N = gen.pick(rng, [n, n + 1, 3 * n - 2, 3 * n - 1, 3 * n, n - 1, ri(1, 4 * n), ri(n, 3 * n)])
    l, r = (N - n) // 2, N - n - (N - n) // 2
    if N < n or max(l, r) >= n:
        mon.event('padding_refused')
        mon.check(refused(lambda: compute_padding(N, n)), 'padding:refused', lambda: 'compute_padding(%d, %d) was not refused with ValueError' % (N, n))
    else:
        mon.event('padding')
        got = mon.attempt(lambda: compute_padding(N, n), 'padding:raise')[1]
        if got is not None:
            mon.check(tuple(got) == (l, r), 'padding', lambda: 'compute_padding(%d, %d) = %s' % (N, n, got))

    J, n = ri(0, 12), ri(1, 5000)
    T = gen.pick(rng, [None, 'global', 0, 1, n, n + 1, float(n), n + .5, .5, 1e-9, .999, 1.0, ri(1, n), float(1 + rng.random() * (n - 1)), 0.0, 2 ** J, n * 4])
    bad = not (T is None or T == 'global' or T == 0) and (T > n or T < 1)
    alias = gen.pick(rng, ['T', 'F'])
    if bad:
        mon.event('parse_T_refused')
        mon.check(refused(lambda: parse_T(T, J, n, T_alias=alias)), 'parse_T:refused', lambda: 'parse_T(%r, %d, %d) was not refused with ValueError' % (T, J, n))
    else:
        mon.event('parse_T')
        want = (2 ** J, 'local') if T is None else (2 ** J, 'global') if T == 'global' else (2 ** J, False) if T == 0 else (T, 'local')
        got = mon.attempt(lambda: parse_T(T, J, n, T_alias=alias), 'parse_T:raise')[1]
        if got is not None:
            mon.check(tuple(got) == want and (got[1] is False) == (want[1] is False), 'parse_T', lambda: 'parse_T(%r, %d, %d) = %s, want %s' % (T, J, n, got, want))
    mon.state('parse_T', [str(type(T)), bad])


# ------------------------------------------------------------------ filters
def filters(mon, rng):
    import numpy as np
    from kymatio.scattering1d import filter_bank as fb
    ri = lambda a, b: int(rng.integers(a, b + 1))
    # periods
    s, eps = float(10 ** rng.uniform(-6, 1.5)), float(10 ** rng.uniform(-12, -.5))
    P = fb.adaptive_choice_P(s, eps=eps) if rng.random() < .7 else fb.adaptive_choice_P(s)
    if rng.random() < .3:
        eps, P = 1e-7, fb.adaptive_choice_P(s)
    mon.event('choice_P')
    P2 = fb.adaptive_choice_P(s, eps=eps)
    v = s * math.sqrt(-2 * math.log(eps))
    mon.check(P2 == int(P2) and P2 >= 1 and P2 - 1 >= v * (1 - 1e-9), 'choice_P', lambda: 'P=%s too small for sigma=%g eps=%g' % (P2, s, eps))
    mon.check(P2 - 2 <= v * (1 + 1e-9), 'choice_P:least', lambda: 'P=%s not the least for sigma=%g eps=%g' % (P2, s, eps))
    # Morlet and Gaussian
    N = gen.pick(rng, [8, 16, 32, 64, 128, 256, 512, 1024, 4096, ri(5, 700), 2 * ri(5, 400) + 1])
    s = float(10 ** rng.uniform(-4, math.log10(.6)))
    s = max(s, .3 / N)
    if rng.random() < .35:
        xi = None
        f = fb.gauss_1d(N, s)
        mon.event('gauss')
        mon.check(float(np.abs(f - np.roll(f[::-1], 1)).max()) <= 1e-6 * float(np.abs(f).max()), 'gauss:even', 'not even')
        mon.check(abs(f[0] - 1) < 1e-6 or s > .15 or s * N < .5, 'gauss:dc', lambda: 'gain at 0 is %r' % f[0])
    else:
        xi = float(gen.pick(rng, [.35, .5, .25, 1e-3, rng.uniform(.01, .5), rng.uniform(.01, 1)]))
        if rng.random() < .2:
            xi = -min(xi, .5)
        f = fb.morlet_1d(N, xi, s)
        mon.event('morlet')
    f = np.asarray(f)
    ok = mon.check(f.shape == (N,) and f.dtype == np.float64, 'morlet:form', lambda: '%s %s' % (f.shape, f.dtype))
    want = refs.filt1d(N, xi, s)
    if not np.isfinite(want).all():
        return
    amp = 1.
    if xi:
        # the difference of two nearly equal bumps loses digits before it is normalised
        g = refs.bump(N, xi, s)
        raw = np.abs(g - refs.bump(N, 0., s) * g[0] / refs.bump(N, 0., s)[0]).max()
        if raw < 1e-3 * g.max():
            return
        amp = float(g.max() / raw)
        mon.check(abs(float(f[0])) <= 1e-9 * float(np.abs(f).max()), 'morlet:dc', lambda: 'gain at 0 is %r' % f[0])
    mon.close(f, want, 'morlet' if xi else 'gauss', (3e-5 if s > .1 or xi and xi < 0 else 1e-6) + 1e-6 * (amp - 1), scale=float(np.abs(want).max()))
    mon.check(abs(float(np.abs(np.fft.ifft(f)).sum()) - 1) < 1e-9, 'morlet:l1', 'not normalised')
    # widths and frequencies
    Q, xi = gen.pick(rng, [1, 2, 3, 8, 16, ri(1, 40)]), float(rng.uniform(.001, .5))
    r = gen.pick(rng, [math.sqrt(.5), .5, .9, float(rng.uniform(.05, .95))])
    s = fb.compute_sigma_psi(xi, Q, r=r) if rng.random() < .7 else fb.compute_sigma_psi(xi, Q)
    d = fb.compute_sigma_psi(xi, Q)
    r2 = r if s != d or r == math.sqrt(.5) else math.sqrt(.5)
    s = fb.compute_sigma_psi(xi, Q, r)
    for sg, rr in ((s, r), (d, math.sqrt(.5))):
        # the bumps at xi and xi * 2**(-1/Q), widths proportional, meet at height r
        x2, c = xi * 2 ** (-1 / Q), 2 ** (-1 / Q)
        m = (x2 + c * xi) / (1 + c)
        mon.event('sigma_psi')
        h = math.exp(-((xi - m) / sg) ** 2 / 2)
        mon.check(sg > 0 and abs(h - rr) < 1e-7 * rr * max(1, -math.log(rr)) * 10, 'sigma_psi', lambda: 'Q=%d xi=%g r=%g: neighbours meet at %g' % (Q, xi, rr, h))
    x = fb.compute_xi_max(Q)
    mon.event('xi_max')
    mon.check(abs(x - max(1 / (1 + 2 ** (3 / Q)), .35)) < 1e-12 and .35 <= x < .5, 'xi_max', lambda: 'Q=%d: %r' % (Q, x))
    # subsampling
    alpha = gen.pick(rng, [5., 4., 1., float(rng.uniform(.5, 8))])
    xi, s = float(gen.pick(rng, [0., 10 ** rng.uniform(-4, -.3), -10 ** rng.uniform(-4, -.3)])), float(10 ** rng.uniform(-6, -.7))
    j = fb.get_max_dyadic_subsampling(xi, s, alpha=alpha, r_psi=.5, sigma0=.1)
    ub = min(abs(xi) + alpha * s, .5)
    mon.event('subsampling')
    mon.state('subsampling', j)
    mon.check(isinstance(j, int) and j >= 0 and ub <= 2. ** -(j + 1) * (1 + 1e-12) and ub >= 2. ** -(j + 2) * (1 - 1e-12), 'subsampling', lambda: 'xi=%g sigma=%g alpha=%g: j=%r' % (xi, s, alpha, j))
    # temporal support
    N, K, crit = gen.pick(rng, [16, 64, 256, ri(8, 300)]), ri(1, 4), gen.pick(rng, [1e-3, 1e-2, .1, float(10 ** rng.uniform(-5, -.5))])
    bank = np.stack([refs.filt1d(N, None, float(10 ** rng.uniform(-2.5, -.7))) for _ in range(K)])
    keep = bank.copy()
    h = np.abs(np.fft.ifft(bank, axis=1))
    half = N // 2
    tails = [max(math.fsum(h[k, n:half]) for k in range(K)) for n in range(half)]
    if min(abs(t - crit) for t in tails) < 1e-12:
        return
    fit = [n for n in range(half) if tails[n] <= crit]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = fb.compute_temporal_support(bank, criterion_amplitude=crit) if crit != 1e-3 or rng.random() < .5 else fb.compute_temporal_support(bank)
    mon.event('support')
    mon.check(np.array_equal(keep, bank), 'support:inputs', 'the filters were changed')
    mon.check(int(got) == (fit[0] + 1 if fit else half), 'support', lambda: 'N=%d crit=%g: %s, tails from %s' % (N, crit, got, fit[:1]))
    if not fit:
        mon.event('support_warned')
    mon.check(bool(w) == (not fit), 'support:warning', lambda: '%d warnings, support %s' % (len(w), 'found' if fit else 'not found'))


# ------------------------------------------------------------------ filter banks
def anden(J, Q, sigma0, r):
    xi = max(1 / (1 + 2 ** (3 / Q)), .35)
    c = 2 ** (-1 / Q)
    s = xi * (1 - c) / (1 + c) / math.sqrt(2 * math.log(1 / r))
    smin = sigma0 / 2 ** J
    out, near = [], abs(s / smin - 1) < 1e-9
    if s <= smin:
        elbow = s
    else:
        k = 0
        while True:
            out.append((xi * c ** k, s * c ** k))
            q = s * c ** k * c / smin
            near |= abs(q - 1) < 1e-9
            if not q > 1:
                break
            k += 1
        elbow = out[-1][0]
    out += [(elbow * (1 - q / Q), smin) for q in range(1, Q)]
    return out, near


def bank(mon, rng):
    import numpy as np
    from kymatio.scattering1d import filter_bank as fb
    ri = lambda a, b: int(rng.integers(a, b + 1))
    J, Q = ri(1, 13), gen.pick(rng, [1, 2, 3, 5, 8, 12, 16, ri(1, 30)])
    sigma0, r = gen.pick(rng, [.1, .1, .05, .3, 1., 3.]), gen.pick(rng, [math.sqrt(.5), math.sqrt(.5), .5, .9, .99])
    kw = dict(alpha=5., r_psi=r, sigma0=sigma0)
    want, near = anden(J, Q, sigma0, r)
    got = list(fb.anden_generator(J, Q, **kw))
    if not near:
        mon.event('anden')
        mon.state('anden', [J, Q, sigma0, r])
        if mon.check(len(got) == len(want), 'anden:length', lambda: 'J=%d Q=%d sigma0=%g r=%g: %d wavelets, expected %d' % (J, Q, sigma0, r, len(got), len(want))):
            for (a, b), (c, d) in zip(got, want):
                mon.check(abs(a - c) < 1e-9 and abs(b - d) < 1e-9 * max(d, 1e-3), 'anden', lambda: 'J=%d Q=%d sigma0=%g r=%g: %r, expected %r' % (J, Q, sigma0, r, (a, b), (c, d)))
    # any generator
    xs = [(float(rng.uniform(.01, .49)), float(10 ** rng.uniform(-2.5, -1))) for _ in range(ri(1, 6))]
    seen = []

    def fn(J, Q, **k):
        seen.append((J, Q, tuple(sorted(k))))
        for xi, s in xs[:max(1, len(xs) - Q + 1)]:
            yield xi, s
    f2, k2 = fb.spin(fn, kw)
    mon.event('spin')
    one = list(fn(J, 1, **kw))
    two = list(f2(J, 1, **k2))
    mon.check(two == one + [(-x, s) for x, s in one] and dict(k2) == kw, 'spin', lambda: '%s from %s' % (two, one))
    mon.check(all(s == (J, 1, ('alpha', 'r_psi', 'sigma0')) for s in seen), 'spin:arguments', lambda: str(seen))
    # factory
    N = 2 ** ri(6, 11)
    J = ri(1, 6)
    Qs = tuple(ri(1, 4) for _ in range(ri(1, 3)))
    T = gen.pick(rng, [2 ** J, 1, ri(1, N // 4), float(rng.uniform(1, N // 4))])
    red = gen.pick(rng, [None, np.sum, np.mean])
    if '_reduction' not in inspect.signature(fb.scattering_filter_factory).parameters:
        red = None
    args = {} if red is None else dict(_reduction=red)
    which = ri(0, 2)
    gfn = [fb.anden_generator, fn, f2][which]
    kw = dict(alpha=5., r_psi=math.sqrt(.5), sigma0=.1)
    out = mon.attempt(lambda: fb.scattering_filter_factory(N, J, Qs, T, (gfn, kw), **args), 'factory:raise')[1]
    if out is None:
        return
    mon.event('factory')
    if not mon.check(len(out) == 1 + len(Qs), 'factory:layers', lambda: '%d filters for %d layers' % (len(out), len(Qs))):
        return
    lt = int(math.floor(math.log2(T)))
    phi = out[0]
    unit = 1 if red in (None, np.sum) else 0

    def levels(d, xi, s, what, amp=1.):
        f = refs.filt1d(N, xi, s)
        sc = float(np.abs(f).max())
        tol = 3e-5 if s > .1 or xi and xi < 0 else 2e-6 + 1e-6 * (amp - 1)
        for k, l in enumerate(d['levels']):
            w = refs.at_level(f, k) * (1 if unit else 2. ** -k)
            mon.close(np.asarray(l), w, 'factory:' + what, tol, scale=sc * (1 if unit else 2. ** -k) * (2 if xi and xi < 0 else 1))
    mon.check(phi['xi'] == 0 and abs(phi['sigma'] - .1 / T) < 1e-15 and phi['j'] == lt and phi['N'] == N, 'factory:phi', lambda: str({k: v for k, v in phi.items() if k != 'levels'}))
    mon.check(len(phi['levels']) >= 1 + lt, 'factory:phi:levels', lambda: '%d levels for log2_T=%d' % (len(phi['levels']), lt))
    if .1 / T * N > .3:
        levels(phi, None, .1 / T, 'phi')
    prev = 0
    for Q, layer in zip(Qs, out[1:]):
        par = list(gfn(J, Q, **kw))
        if not mon.check(len(par) == len(layer), 'factory:count', lambda: '%d filters, %d expected' % (len(layer), len(par))):
            return
        top = prev
        for (xi, s), d in zip(par, layer):
            j = refs.j_of(xi, s)
            mon.check(abs(d['xi'] - xi) < 1e-15 and abs(d['sigma'] - s) < 1e-15 and d['j'] == j, 'factory:meta', lambda: '%s for xi=%g sigma=%g' % ({k: v for k, v in d.items() if k != 'levels'}, xi, s))
            # a later layer is applied to every coarser signal with j1 < j2
            mon.check(len(d['levels']) >= max(1, min(1 + prev, j, 1 + lt)), 'factory:levels', lambda: '%d levels of a wavelet with j=%d after layers up to j=%d' % (len(d['levels']), j, prev))
            if s * N > .5:
                g = refs.bump(N, xi, s)
                raw = np.abs(g - refs.bump(N, 0., s) * g[0] / refs.bump(N, 0., s)[0]).max()
                if raw > 1e-2 * g.max():
                    levels(d, xi, s, 'psi', float(g.max() / raw))
            top = max(top, j)
        prev = top


# ------------------------------------------------------------------ functional cores
def fconv(x, f, s=1):
    import numpy as np
    return np.fft.ifft(np.fft.fft(x) * f)[..., ::s]


def random_bank(rng, N, js, spin=False, depth=None):
    import numpy as np
    top = int(math.log2(N)) if depth is None else depth
    out = []
    for j in js:
        out.append({'levels': [rng.standard_normal(N >> k) for k in range(top + 1)], 'j': int(j), 'xi': float(rng.uniform(.01, .5)), 'sigma': float(rng.uniform(.01, .1))})
    return out


def numpy_backend():
    from kymatio.scattering1d.backend.numpy_backend import backend
    return backend


def frozen(filters):
    import copy
    return copy.deepcopy(filters)


def unchanged(mon, a, b, what):
    import numpy as np

    def eq(x, y):
        if isinstance(x, dict):
            return x.keys() == y.keys() and all(eq(x[k], y[k]) for k in x)
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(map(eq, x, y))
        return np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
    mon.check(eq(a, b), 'core:inputs:' + what, 'arguments were changed')


def cascade(mon, rng):
    import numpy as np
    from kymatio.scattering1d.core.scattering1d import scattering1d
    from kymatio.scattering1d.core.timefrequency_scattering import time_scattering_widthfirst
    be = numpy_backend()
    ri = lambda a, b: int(rng.integers(a, b + 1))
    L = ri(3, 7)
    N, B = 2 ** L, ri(1, 3)
    x = rng.standard_normal((B, 1, N))
    ls, avg = ri(0, L), bool(rng.random() < .6)
    # (without averaging the width-first cascade still averages its first order, at the coarsest stride)
    if not avg:
        js1 = [ri(0, L - 1) for _ in range(ri(1, 5))]
        ls = max(ls, max(js1))
    else:
        js1 = [ri(0, L) for _ in range(ri(1, 5))]
    js2 = [ri(0, L) for _ in range(ri(1, 5))]
    phi = random_bank(rng, N, [L])[0]
    phi['j'] = ri(ls, L)
    psi1, psi2 = random_bank(rng, N, js1), random_bank(rng, N, js2)
    for f in psi1:
        f['levels'] = f['levels'][:1]
    filters = [phi, psi1, psi2][:ri(2, 3)]
    keep, kx = frozen(filters), x.copy()
    got = mon.attempt(lambda: list(scattering1d(x, be, filters, ls, avg)), 'core:raise')[1]
    unchanged(mon, (keep, kx), (filters, x), 'scattering1d')
    want = {}
    S = lambda u, k: fconv(u, phi['levels'][k], 2 ** (ls - k)).real if avg else u
    want[()] = ((), S(x, 0))
    U1 = []
    for n1, f in enumerate(psi1):
        k1 = min(f['j'], ls) if avg else f['j']
        u = np.abs(fconv(x, f['levels'][0], 2 ** k1))
        U1.append((n1, f['j'], k1, u))
        want[(n1,)] = ((f['j'],), S(u, k1))
        if len(filters) > 2:
            for n2, g in enumerate(psi2):
                if g['j'] > f['j']:
                    k2 = min(g['j'], ls) if avg else g['j']
                    v = np.abs(fconv(u, g['levels'][k1], 2 ** (k2 - k1)))
                    want[(n1, n2)] = ((f['j'], g['j']), S(v, k2))
    mon.event('core')
    mon.state('core', [L, ls, avg, js1, js2])
    if got is not None:
        compare(mon, {g['n']: (g['j'], g['coef']) for g in got}, len(got), want, 'core')
    # width first
    filters = [phi, psi1, psi2]
    keep = frozen(filters)
    got = mon.attempt(lambda: list(time_scattering_widthfirst(x, be, filters, ls, avg)), 'core:widthfirst:raise')[1]
    unchanged(mon, (keep, kx), (filters, x), 'widthfirst')
    want = {(): ((), S(x, 0))}
    want[(-1,)] = ((-1,), np.stack([fconv(u, phi['levels'][k1], 2 ** (ls - k1)).real for _, _, k1, u in U1], axis=2))
    nmax = {(-1,): len(U1)}
    for n2, g in enumerate(psi2):
        ys = [fconv(u, g['levels'][k1], 2 ** max((min(g['j'], ls) if avg else g['j']) - k1, 0)) for _, j1, k1, u in U1 if j1 < g['j']]
        if ys:
            want[(-1, n2)] = ((-1, g['j']), np.stack(ys, axis=2))
            nmax[(-1, n2)] = len(ys)
    mon.event('core:widthfirst')
    if got is not None:
        compare(mon, {g['n']: (g['j'], g['coef']) for g in got}, len(got), want, 'core:widthfirst')
        for g in got:
            if g['n'] in nmax:
                mon.check(g['n1_max'] == nmax[g['n']], 'core:widthfirst:n1_max', lambda: '%s for n=%s' % (g['n1_max'], g['n']))


def compare(mon, got, count, want, key):
    import numpy as np
    if not mon.check(count == len(got) and set(got) == set(want), key + ':paths', lambda: 'paths %s, expected %s' % (sorted(got)[:9], sorted(want)[:9])):
        return
    for n in want:
        mon.check(tuple(got[n][0]) == tuple(want[n][0]), key + ':j', lambda: 'j=%s for n=%s, expected %s' % (got[n][0], n, want[n][0]))
        a, b = np.asarray(got[n][1]), want[n][1]
        if mon.check(a.shape == b.shape and np.iscomplexobj(a) == np.iscomplexobj(b), key + ':shape', lambda: '%s %s for n=%s, expected %s %s' % (a.shape, a.dtype, n, b.shape, b.dtype)):
            mon.close(a, b, key, 1e-9, scale=float(np.abs(b).max()) + 1e-300)


def frequency(mon, rng):
    import numpy as np
    from kymatio.scattering1d.core.timefrequency_scattering import frequency_scattering, time_averaging, frequency_averaging
    be = numpy_backend()
    ri = lambda a, b: int(rng.integers(a, b + 1))
    L = ri(1, 6)
    Nf, B, T = 2 ** L, ri(1, 3), 2 ** ri(0, 5)
    n1 = ri(1, Nf)
    spinned = bool(rng.random() < .5)
    X = rng.standard_normal((B, 1, n1, T))
    if spinned:
        X = X + 1j * rng.standard_normal(X.shape)
    low = int(math.log2(T))
    path = {'coef': X, 'n1_max': n1, 'n': (-1, ri(0, 9)) if spinned else (-1,), 'j': (-1, ri(0, 4)) if spinned else (-1,)}
    psis = random_bank(rng, Nf, [ri(0, L) for _ in range(ri(1, 6))])
    psis[0]['xi'] = 0
    for i, p in enumerate(psis[1:]):
        if spinned or i >= (len(psis) - 1) // 2:
            p['xi'] *= gen.pick(rng, [1, -1]) if spinned else -1
    phi = random_bank(rng, Nf, [ri(0, L)])[0]
    phi['N'] = Nf
    ls, avg = ri(0, L), bool(rng.random() < .6)
    keep = frozen((path, phi, psis))
    got = mon.attempt(lambda: list(frequency_scattering(path, be, [phi, psis], ls, avg, spinned)), 'core:frequency:raise')[1]
    unchanged(mon, keep, (path, phi, psis), 'frequency')
    mon.event('core:frequency')
    mon.state('core:frequency', [L, n1, T, spinned, ls, avg])
    xt = np.concatenate([np.swapaxes(X, -1, -2), np.zeros((B, 1, T, Nf - n1))], axis=-1)
    want = {}
    for n, p in enumerate(psis):
        if p['xi'] < 0 and not spinned:
            continue
        k = min(p['j'], ls) if avg else p['j']
        want[path['n'][1:] + (n,)] = (p['j'], np.swapaxes(fconv(xt, p['levels'][0], 2 ** k), -1, -2), k, int(np.sign(p['xi'])))
    if got is None or not mon.check(len(got) == len(want) and set(g['n'] for g in got) == set(want), 'core:frequency:paths', lambda: '%s, expected %s' % ([g['n'] for g in got], sorted(want))):
        return
    for g in got:
        j, y, k, sp = want[g['n']]
        mon.check(g['j_fr'] == (j,) and g['n_fr'] == (g['n'][-1],) and g['n1_stride'] == 2 ** k and g['spin'] == sp and g['n1_max'] == n1 and g['j'] == path['j'], 'core:frequency:meta', lambda: str({a: b for a, b in g.items() if a != 'coef'}))
        if mon.check(g['coef'].shape == y.shape, 'core:frequency:shape', lambda: '%s, expected %s' % (g['coef'].shape, y.shape)):
            mon.close(g['coef'], y, 'core:frequency', 1e-9, scale=float(np.abs(y).max()) + 1e-300)
    # averaging
    g = gen.pick(rng, got)
    u = {**g, 'coef': np.abs(g['coef'])}
    kin = int(math.log2(g['n1_stride']))
    mode = gen.pick(rng, ['local', 'global', False]) if avg else gen.pick(rng, ['global', False])
    keep = frozen((u, phi))
    out = mon.attempt(lambda: frequency_averaging(u, be, phi, ls, mode), 'core:averaging:raise')[1]
    unchanged(mon, keep, (u, phi), 'frequency_averaging')
    mon.event('core:averaging')
    if out is not None:
        ut = np.swapaxes(u['coef'], -1, -2)
        if mode == 'local':
            w, stride = fconv(ut, phi['levels'][kin], 2 ** (ls - kin)).real, 2 ** ls
        elif mode == 'global':
            w, stride = ut.sum(axis=-1, keepdims=True), n1
        else:
            w, stride = ut, 2 ** max(g['j_fr'][-1], 0)
        w = np.swapaxes(w, -1, -2)
        mon.check(out['n1_stride'] == stride, 'core:averaging:stride', lambda: '%s with %s averaging, expected %s' % (out['n1_stride'], mode, stride))
        mon.check({k: v for k, v in out.items() if k not in ('coef', 'n1_stride')} == {k: v for k, v in u.items() if k not in ('coef', 'n1_stride')}, 'core:averaging:meta', lambda: str(sorted(out)))
        mon.close(out['coef'], w, 'core:averaging:' + str(mode), 1e-9, scale=float(np.abs(w).max()) + 1e-300)
    # temporal averaging
    Lt = ri(0, 6)
    lst = ri(0, Lt)
    j = ri(0, Lt)
    kin = min(j, lst)
    ph = random_bank(rng, 2 ** Lt, [ri(lst, Lt)])[0]
    u = {'coef': rng.random((B, 1, n1, 2 ** (Lt - kin))), 'j': (ri(-1, 6), j), 'n': (1, 2), 'spin': 1}
    keep = frozen((u, ph))
    out = mon.attempt(lambda: time_averaging(u, be, ph, lst), 'core:averaging:raise')[1]
    unchanged(mon, keep, (u, ph), 'time_averaging')
    if out is not None:
        w = fconv(u['coef'], ph['levels'][kin], 2 ** (lst - kin)).real
        mon.check({k: v for k, v in out.items() if k != 'coef'} == {k: v for k, v in u.items() if k != 'coef'}, 'core:averaging:meta', lambda: str(sorted(out)))
        mon.close(out['coef'], w, 'core:averaging:time', 1e-9, scale=float(np.abs(w).max()) + 1e-300)


def joint(mon, rng):
    import numpy as np
    from kymatio.scattering1d.core.timefrequency_scattering import joint_timefrequency_scattering
    be = numpy_backend()
    ri = lambda a, b: int(rng.integers(a, b + 1))
    L, Lf = ri(3, 6), ri(2, 4)
    N, Nf, B = 2 ** L, 2 ** Lf, ri(1, 3)
    x = rng.standard_normal((B, 1, N))
    avg, avf = bool(rng.random() < .6), bool(rng.random() < .6)
    ls, lsf = ri(0, L), ri(0, Lf)
    js1 = [ri(0, L - 1) for _ in range(ri(1, min(5, Nf)))]
    js2 = [ri(0, L) for _ in range(ri(1, 4))]
    if not avg:
        ls = max(ls, max(js1))
    phi = random_bank(rng, N, [L])[0]
    psi1, psi2 = random_bank(rng, N, js1), random_bank(rng, N, js2)
    phf = random_bank(rng, Nf, [ri(0, Lf)])[0]
    phf['N'] = Nf
    psf = random_bank(rng, Nf, [ri(0, Lf) for _ in range(ri(1, 3))])
    psf[0]['xi'] = 0
    psf += [{**p, 'levels': [rng.standard_normal(Nf)], 'xi': -p['xi']} for p in psf[1:]]
    keep = frozen((x, phi, psi1, psi2, phf, psf))
    got = mon.attempt(lambda: list(joint_timefrequency_scattering(x, be, [phi, psi1, psi2], ls, avg, [phf, psf], lsf, avf)), 'core:joint:raise')[1]
    unchanged(mon, keep, (x, phi, psi1, psi2, phf, psf), 'joint')
    mon.event('core:joint')
    U1, want = [], {}
    for f in psi1:
        k1 = min(f['j'], ls) if avg else f['j']
        U1.append((f['j'], k1, np.abs(fconv(x, f['levels'][0], 2 ** k1))))
    want[()] = fconv(x, phi['levels'][0], 2 ** ls).real if avg else x

    def fr(rows, n, spinned):
        y = np.stack(rows, axis=2)
        y = np.swapaxes(y, -1, -2)
        y = np.concatenate([y, np.zeros(y.shape[:-1] + (Nf - len(rows),))], axis=-1)
        for i, p in enumerate(psf):
            if p['xi'] >= 0 or spinned:
                want[n + (i,)] = np.swapaxes(fconv(y, p['levels'][0], 2 ** (min(p['j'], lsf) if avf else p['j'])), -1, -2)
    fr([fconv(u, phi['levels'][k1], 2 ** (ls - k1)).real for _, k1, u in U1], (), False)
    for n2, g in enumerate(psi2):
        rows = [fconv(u, g['levels'][k1], 2 ** max((min(g['j'], ls) if avg else g['j']) - k1, 0)) for j1, k1, u in U1 if j1 < g['j']]
        if rows:
            fr(rows, (n2,), True)
    if got is None or not mon.check(len(got) == len(want) and set(g['n'] for g in got) == set(want), 'core:joint:paths', lambda: '%s, expected %s' % ([g['n'] for g in got][:9], sorted(want)[:9])):
        return
    for g in got:
        y = want[g['n']]
        if mon.check(g['coef'].shape == y.shape, 'core:joint:shape', lambda: '%s, expected %s for n=%s' % (g['coef'].shape, y.shape, g['n'])):
            mon.close(g['coef'], y, 'core:joint', 1e-9, scale=float(np.abs(y).max()) + 1e-300)


def run_case(case, mon):
    rng = gen.rng_for('h2', case['seed'])
    if case['kind'] == 'helpers':
        for _ in range(6):
            parameters(mon, rng)
            filters(mon, rng)
    elif case['kind'] == 'bank':
        for _ in range(2):
            bank(mon, rng)
    elif case['kind'] == 'core':
        for _ in range(2):
            cascade(mon, rng)
    else:
        frequency(mon, rng)
        frequency(mon, rng)
        joint(mon, rng)
    mon.sample = dict(mon.events)
