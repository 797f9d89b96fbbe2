"""1D and frequential filter banks: structural monitors on every filter that is constructed."""
from .. import gen

TECHNIQUE = 'invariant monitors on every constructed filter, with an independent filter generator as oracle'
NOTE = ('Every filter (all levels) of each observed bank is judged; sampled (N, J, Q, T), no proof. Frame bounds are empirical constants checked per bank. '
        'Mirrored filters of negative xi are accepted up to 1e-4 (finite periodisation).')
RULE = 'seeded random and boundary (N, J, Q, T, J_fr, Q_fr, F); every filter at every level judged; non-trivial = bank with at least one wavelet'
ASSUMPTIONS = ['FFT of numpy correct to rounding', 'published constants sigma0=0.1, alpha=5, r_psi=sqrt(1/2)']
REQUIRED = {'filter_judged': 2000, 'level_judged': 500}
CORE = [dict(J=j, Q=q, shape=n) for j, n in ((1, 4), (1, 16), (3, 8), (5, 100), (8, 256), (10, 2048), (6, 1023)) for q in (1, 2, 3, 8, 16)]


def cases(tier, seed):
    for kw in CORE:
        yield dict(kind='object', kw=kw)
    rng = gen.rng_for('F01', tier, seed)
    n = 2500 if tier == 'quick' else 10 ** 9
    for i in range(n):
        r = i % 4
        if r < 2:
            kw = gen.cfg1d(rng, lo=4, hi=2048 if i % 3 else 8192, maxQ=24)
            kw.pop('out_type', None)
            yield dict(kind='object', kw=kw)
        elif r == 2:
            yield dict(kind='jtfs', kw=gen.cfgjtfs(rng, lo=16, hi=1024))
        else:
            J = int(rng.integers(1, 11))
            q = [int(rng.integers(1, 33)) for _ in range(int(rng.integers(1, 3)))]
            if len(q) == 2:
                q[1] = min(q)
            yield dict(kind='factory', J=J, Q=q, N=2 ** int(rng.integers(max(J + 1, 3), 14)), T=float(round(rng.uniform(1, 2 ** J), 2)), s=int(rng.integers(1 << 30)))


def judge_filter(mon, f, N, xi, sigma, what, tol=1e-9):
    """Level-0 response of one declared filter."""
    import numpy as np
    from .. import refs
    mon.event('filter_judged')
    f = np.asarray(f)
    if not mon.check(f.shape == (N,) and np.isrealobj(f) and np.all(np.isfinite(f)), 'shape', lambda: '%s: %s %s' % (what, f.shape, f.dtype)):
        return
    h = np.fft.ifft(f)
    mon.check(abs(np.abs(h).sum() - 1) < 1e-6, 'l1norm', lambda: '%s: l1 norm %r' % (what, np.abs(h).sum()))
    neg = 1e-4 if xi and xi < 0 else 0.0
    if not xi:
        mon.check(abs(f[0] - 1) < 1e-6, 'gain', lambda: '%s: low-pass gain at zero %r' % (what, f[0]))
        mon.check(f.min() > -1e-9 and np.argmax(f) == 0, 'lowpass_shape', lambda: '%s: min %r argmax %d' % (what, f.min(), np.argmax(f)))
        mon.check(np.allclose(f[1:], f[1:][::-1], atol=1e-9), 'lowpass_symmetry', what)
    else:
        mon.check(abs(f[0]) < 1e-9, 'zero_mean', lambda: '%s: response at zero %r' % (what, f[0]))
        # single bump at xi: strictly inside its width around the peak; small elsewhere
        d = np.abs((np.arange(N) / N - xi + 0.5) % 1 - 0.5)
        pk = int(np.argmax(f))
        if N * sigma > 2 and abs(xi) > 2 * sigma:
            # (the zero-mean correction is negligible there)
            mon.check(d[pk] <= 0.5 / N + 0.15 * sigma, 'peak', lambda: '%s: peak at %g, declared xi %g sigma %g' % (what, pk / N, xi, sigma))
            far = d > 6 * sigma
            if far.any():
                mon.check(np.abs(f[far]).max() <= 0.16 * f.max() if abs(xi) < 6 * sigma else np.abs(f[far]).max() < 1e-4, 'leak',
                          lambda: '%s: %g outside 6 sigma' % (what, np.abs(f[far]).max()))
            ins = (d < 3 * sigma)
            mon.check(f[ins].min() > 0 or abs(xi) < 4 * sigma, 'bump', lambda: '%s: not positive within 3 sigma' % what)
    want = refs.filt1d(N, xi if xi else None, sigma)
    if xi and xi < 0:
        # the exact mirror of the positive filter
        p = refs.filt1d(N, -xi, sigma)
        want = np.concatenate([p[:1], p[1:][::-1]])
    mon.close(f, want, 'response', rtol=tol + neg, scale=1.0, detail=what)
    mon.state('filter', [N, round(xi or 0, 6), round(sigma, 6)])


def judge_j(mon, p, what):
    import math
    b = abs(p['xi']) + 5.0 * p['sigma']
    j = p['j']
    # largest j with b <= 2**-(j+1), never below 0 (filters reaching beyond Nyquist)
    ok = (b <= 2.0 ** -(j + 1) * (1 + 1e-9) or j == 0) and b > 2.0 ** -(j + 2) * (1 - 1e-9)
    mon.check(ok, 'subsampling', lambda: '%s: j=%r for xi %g sigma %g (bound %g)' % (what, j, p['xi'], p['sigma'], b))


def judge_bank(mon, psis, N, J, Q, what, spinned=False):
    import numpy as np
    from .. import refs
    want = refs.xi_sigma_list(J, Q)
    if spinned:
        want = want + [(-x, s) for x, s in want]
    got = [(p['xi'], p['sigma']) for p in psis]
    if not mon.check(len(got) == len(want) and np.allclose(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2), rtol=1e-9), 'centers',
                     lambda: '%s: (xi, sigma) %s... expected %s...' % (what, got[:6], want[:6])):
        return
    # structural restatement: constant Q, then linear
    pos = got[:len(got) // 2] if spinned else got
    geo = [x for x in pos if x[1] > pos[-1][1] * (1 + 1e-9)]
    for a, b in zip(geo, geo[1:]):
        mon.check(abs(b[0] / a[0] - 2 ** (-1.0 / Q)) < 1e-9 and abs(b[1] / a[1] - 2 ** (-1.0 / Q)) < 1e-9, 'constant_q', lambda: '%s: %s -> %s' % (what, a, b))
    mon.check(all(0 < x < 0.5 and s > 0 for x, s in pos), 'range', what)
    mon.check(all(a[0] > b[0] for a, b in zip(pos, pos[1:])), 'decreasing', what)
    for i, p in enumerate(psis):
        judge_filter(mon, p['levels'][0], N, p['xi'], p['sigma'], '%s[%d]' % (what, i))
        judge_j(mon, p, '%s[%d]' % (what, i))
        judge_levels(mon, p['levels'], N, '%s[%d]' % (what, i))


def judge_levels(mon, levels, N, what):
    from .. import refs
    for k in range(1, len(levels)):
        if N % 2 ** k:
            mon.check(False, 'levels', '%s: level %d of a filter of length %d' % (what, k, N))
            return
        mon.event('level_judged')
        mon.close(levels[k], refs.at_level(levels[0], k), 'level', rtol=1e-9, scale=1.0, detail='%s level %d' % (what, k))


def littlewood_paley(mon, phi, psis, N, J, Q, T, what):
    import numpy as np
    lp = np.zeros(N)
    for p in psis:
        f = np.asarray(p['levels'][0])
        lp += 0.5 * (f ** 2 + np.concatenate([f[:1], f[1:][::-1]]) ** 2)
    tot = lp + np.asarray(phi) ** 2
    mon.event('frame_judged')
    if N < 16 * 2 ** J or not any(p['sigma'] > 0.1 / 2 ** J * (1 + 1e-9) for p in psis):
        mon.event('frame_outside_domain')
        return float(tot.max())
    mon.check(tot.max() < 1.02 or T < 2 ** J, 'frame_upper', lambda: '%s: Littlewood-Paley sum reaches %g' % (what, tot.max()))
    if abs(T - 2 ** J) < 1e-9:
        w = np.abs(np.fft.fftfreq(N))
        hi = 0.35
        lo = tot[w <= hi].min()
        mon.check(lo > 0.1, 'frame_lower', lambda: '%s: Littlewood-Paley sum falls to %g' % (what, lo))
    mon.state('frame', [J, Q, N])
    return float(tot.max())


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs
    kw = case.get('kw')
    mon.nontrivial = True
    if case['kind'] == 'factory':
        from kymatio.scattering1d.filter_bank import scattering_filter_factory, anden_generator
        from math import sqrt
        J, N, Q, T = case['J'], case['N'], case['Q'], case['T']
        r = scattering_filter_factory(N, J, tuple(Q), T, (anden_generator, {'alpha': 5.0, 'r_psi': sqrt(0.5), 'sigma0': 0.1}))
        phi, banks = r[0], r[1:]
        mon.check(len(banks) == len(Q), 'layers', 'factory returned %d banks for Q %s' % (len(banks), Q))
        layers = list(zip(banks, Q))
        kw = case
        Np = N
    else:
        dim = '1d' if case['kind'] == 'object' else 'jtfs'
        S = fe.build('numpy', dim, kw)
        c = refs.Cfg1D(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k in ('J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling')})
        J, T, Np = kw['J'], c.T, c.Np
        phi = S.phi_f
        layers = [(S.psi1_f, c.Q[0]), (S.psi2_f, c.Q[1])]
        if dim == 'jtfs':
            d = refs.CfgJTFS(**{('N' if k == 'shape' else k): v for k, v in kw.items() if k not in ('out_type', 'format')})
            pf, psf = S.filters_fr
            Qf = kw.get('Q_fr', 1)
            Qf = Qf if isinstance(Qf, int) else Qf[0]
            judge_filter(mon, pf['levels'][0], d.Nf, None, 0.1 / d.F, 'phi_fr')
            mon.equal(pf['j'], d.log2F, 'phi_fr_j')
            judge_levels(mon, pf['levels'], d.Nf, 'phi_fr')
            judge_filter(mon, psf[0]['levels'][0], d.Nf, None, 0.1 / 2 ** d.J_fr, 'psi_fr[0]')
            mon.check(psf[0]['j'] == d.J_fr and psf[0]['xi'] == 0, 'psi_fr0', lambda: repr({k: psf[0][k] for k in ('xi', 'j')}))
            judge_bank(mon, psf[1:], d.Nf, d.J_fr, Qf, 'psi_fr', spinned=True)
            h = len(psf[1:]) // 2
            for a, b in zip(psf[1:1 + h], psf[1 + h:]):
                fa, fb = a['levels'][0], b['levels'][0]
                mon.close(fb, np.concatenate([fa[:1], fa[1:][::-1]]), 'mirror', rtol=1e-4, scale=1.0, detail='negative xi %g' % b['xi'])
                mon.check(b['xi'] == -a['xi'] and a['sigma'] == b['sigma'] and a['j'] == b['j'], 'mirror_meta', 'xi %g' % b['xi'])
    judge_filter(mon, phi['levels'][0], Np, None, 0.1 / T, 'phi')
    mon.equal(phi['j'], int(np.floor(np.log2(T))), 'phi_j', 'phi j')
    judge_levels(mon, phi['levels'], Np, 'phi')
    mx = 0
    for i, (bank, Q) in enumerate(layers):
        judge_bank(mon, bank, Np, J, Q, 'psi%d' % (i + 1))
        mx = max(mx, littlewood_paley(mon, phi['levels'][0], bank, Np, J, Q, T, 'psi%d J %d Q %d N %d T %g' % (i + 1, J, Q, Np, T)))
    mon.sample = {'J': J, 'N': Np, 'T': T, 'filters': sum(len(b) for b, _ in layers), 'littlewood_paley_max': mx}
