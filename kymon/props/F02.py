"""2D and 3D filter banks."""
from .. import gen

TECHNIQUE = 'invariant monitors on every constructed filter, with an independent filter generator as oracle'
NOTE = 'Every filter at every level of each observed bank is judged against structural invariants and a float64 reference; sampled shapes and parameters, no proof.'
RULE = 'seeded random and boundary (shape, J, L, sigma_0); every filter judged; non-trivial = at least one wavelet judged'
ASSUMPTIONS = ['filters are stored in single precision', 'spectral peak positions are judged only where the grid resolves them']
REQUIRED = {'filter2d_judged': 500, 'filter3d_judged': 300}


def cases(tier, seed):
    for J, shape, L in ((1, [2, 2], 8), (2, [32, 32], 8), (3, [24, 40], 6), (3, [8, 8], 1), (2, [13, 9], 5), (4, [32, 32], 4), (4, [17, 33], 3), (3, [8, 8], 16), (2, [4, 20], 12)):
        yield dict(kind='2d', kw=dict(J=J, shape=shape, L=L))
    for J, shape, L, s in ((2, [8, 8, 8], 3, 1.0), (1, [5, 7, 9], 4, 0.8), (0, [4, 4, 4], 0, 1.0), (3, [16, 12, 10], 2, 1.5), (1, [9, 9, 9], 6, 1.0)):
        yield dict(kind='3d', kw=dict(J=J, shape=shape, L=L, sigma_0=s))
    rng = gen.rng_for('F02', tier, seed)
    n = 700 if tier == 'quick' else 10 ** 9
    for i in range(n):
        if i % 2:
            kw = {k: v for k, v in gen.cfg2d(rng, hi=32 if i % 8 else 70, maxJ=4 if i % 6 == 0 else 3).items() if k in ('J', 'shape', 'L', 'pre_pad')}
            if i % 5 == 0:
                # long wavelets on small images: many periods overlap
                kw['L'] = int(gen.pick(rng, [10, 12, 14, 16]))
                kw['shape'] = [int(rng.integers(2 ** kw['J'], 2 ** kw['J'] + 5)) for _ in range(2)]
            yield dict(kind='2d', kw=kw)
        else:
            kw = gen.cfg3d(rng, hi=10 if i % 8 else 16, maxJ=3, maxL=4 if i % 6 else 6)
            yield dict(kind='3d', kw={k: kw[k] for k in ('J', 'shape', 'L', 'sigma_0')})


def rev(f, axes):
    """Point reflection through frequency zero."""
    import numpy as np
    return np.roll(np.flip(f, axes), 1, axes)


def run2d(kw, mon):
    import numpy as np
    from .. import fe, refs
    S = fe.build('numpy', '2d', kw)
    J, L = kw['J'], kw.get('L', 8)
    P = 2 ** J
    M, N = [(n // P + 2) * P for n in kw['shape']]
    if kw.get('pre_pad'):
        pass
    psis, phi = S.psi, S.phi
    if not mon.check(len(psis) == J * L and [(p['j'], p['theta']) for p in psis] == [(j, t) for j in range(J) for t in range(L)], 'index',
                     lambda: 'filters indexed by %s' % [(p['j'], p['theta']) for p in psis][:20]):
        return
    mon.check(phi['j'] == J, 'phi_j', lambda: 'phi has j=%r, J=%d' % (phi['j'], J))
    rphi, rpsi = refs.filters2d(M, N, J, L)
    w0, w1 = np.meshgrid(2 * np.pi * np.fft.fftfreq(M), 2 * np.pi * np.fft.fftfreq(N), indexing='ij')

    def arr(a):
        return np.asarray(a).reshape(np.asarray(a).shape[:2]) if np.asarray(a).ndim == 3 and np.asarray(a).shape[-1] == 1 else np.asarray(a)
    lp = np.zeros((M, N))
    for p, r in zip(psis, rpsi):
        f = arr(p['levels'][0])
        mon.event('filter2d_judged')
        what = 'psi j=%d theta=%d of %dx%d L=%d' % (p['j'], p['theta'], M, N, L)
        if not mon.check(f.shape == (M, N) and np.isrealobj(f) and np.all(np.isfinite(f)), 'shape', lambda: '%s: %s %s' % (what, f.shape, f.dtype)):
            continue
        mon.check(abs(f[0, 0]) < 2e-5, 'zero_mean', lambda: '%s: response at zero %r' % (what, f[0, 0]))
        mon.close(f, r['f'], 'response2d', rtol=1e-4, scale=1.0, detail=what)
        th = (int(L - L / 2 - 1) - p['theta']) * np.pi / L
        k = 0.75 * np.pi / 2 ** p['j']
        i = np.unravel_index(np.argmax(f), f.shape)
        res = 2 * np.pi / min(M, N)
        if 0.8 * 2 ** p['j'] * 3 < min(M, N):
            d = np.hypot((w0[i] - k * np.cos(th) + np.pi) % (2 * np.pi) - np.pi, (w1[i] - k * np.sin(th) + np.pi) % (2 * np.pi) - np.pi)
            mon.event('peak_judged')
            mon.check(d <= 1.5 * res + 0.12 * k, 'peak2d', lambda: '%s: peak %.3f from (%.3f, %.3f)' % (what, d, k * np.cos(th), k * np.sin(th)))
        for lev in range(1, len(p['levels'])):
            mon.event('level2d_judged')
            mon.close(arr(p['levels'][lev]), refs.crop2d(f, lev), 'level2d', rtol=1e-6, scale=1.0, detail='%s level %d' % (what, lev))
        lp += 0.5 * (f ** 2 + rev(f, (0, 1)) ** 2)
    f = arr(phi['levels'][0])
    mon.event('filter2d_judged')
    mon.close(f, rphi, 'response_phi', rtol=1e-4, scale=1.0, detail='phi %dx%d J=%d' % (M, N, J))
    mon.check(abs(f[0, 0] - 1) < 2e-3 if 2 ** (J - 1) * 0.8 > 0.79 else True, 'phi_gain', lambda: 'phi gain at zero %r' % f[0, 0])
    mon.check(np.unravel_index(np.argmax(f), f.shape) == (0, 0), 'phi_peak', 'phi does not peak at zero')
    mon.check(len(phi['levels']) == J, 'phi_levels', lambda: '%d levels for J=%d' % (len(phi['levels']), J))
    for lev in range(1, len(phi['levels'])):
        mon.event('level2d_judged')
        mon.close(arr(phi['levels'][lev]), refs.crop2d(f, lev), 'level2d', rtol=1e-6, scale=1.0, detail='phi level %d' % lev)
    tot = lp.max()
    mon.state('lp2d', [J, L, round(float(tot), 2)])
    mon.event('frame_judged')
    mon.check(tot < (2.7 if L == 1 else 1.2), 'frame2d', lambda: 'Littlewood-Paley sum reaches %g for L=%d' % (tot, L))
    mon.nontrivial = True
    mon.sample = {'kw': kw, 'lp_max': float(tot), 'phi0': float(f[0, 0])}


def run3d(kw, mon):
    import numpy as np
    from .. import fe, refs
    S = fe.build('numpy', '3d', kw)
    J, L, s0 = kw['J'], kw['L'], kw['sigma_0']
    shape = tuple(kw['shape'])
    F = S.filters
    if not mon.check(len(F) == L + 1, 'degrees', '%d degrees for L=%d' % (len(F), L)):
        return
    w = np.meshgrid(*[2 * np.pi * np.fft.fftfreq(n) for n in shape], indexing='ij')
    r2 = sum(x ** 2 for x in w)
    ax = (-3, -2, -1)
    # points whose reflection is not folded by the Nyquist row of an even axis
    inner = np.ones(shape, bool)
    for a, n in enumerate(shape):
        if n % 2 == 0:
            sl = [slice(None)] * 3
            sl[a] = n // 2
            inner[tuple(sl)] = False
    import math
    for l in range(L + 1):
        A = np.asarray(F[l])
        if not mon.check(A.shape == (J + 1, 2 * l + 1) + shape, 'shape3d', lambda: 'degree %d: %s' % (l, A.shape)):
            continue
        mon.check(np.all(np.isfinite(A)), 'finite3d', 'degree %d' % l)
        for j in range(J + 1):
            B = A[j].astype(complex)
            what = 'degree %d scale %d of %s sigma_0 %g' % (l, j, shape, s0)
            mon.event('filter3d_judged', 2 * l + 1)
            mx = np.abs(B).max()
            z = B[:, 0, 0, 0]
            if l == 0:
                mon.check(abs(z[0] - 1) < 1e-5, 'dc0', lambda: '%s: %r' % (what, z))
            else:
                mon.check(np.abs(z).max() < 1e-6, 'dc', lambda: '%s: %r' % (what, z))
            P = rev(B, ax)
            mon.check(np.abs((P - (-1) ** l * B)[:, inner]).max() <= 2e-5 * max(mx, 1e-3), 'parity',
                      lambda: '%s: point reflection defect %g' % (what, np.abs((P - (-1) ** l * B)[:, inner]).max()))
            # Y_{l,-m} = (-1)^m conj(Y_{l,m}); the phase (-i)^l is common to all m
            ph = (-1j) ** l
            C = B / ph
            for m in range(0, l + 1):
                d = np.abs(C[l - m] - (-1) ** m * np.conj(C[l + m])).max()
                mon.check(d <= 2e-5 * max(mx, 1e-3), 'conjugation', lambda: '%s m=%d: %g' % (what, m, d))
            # sum over m of |.|^2 is radial: proportional to (r sigma)^{2l} exp(-r^2 sigma^2)
            sig = s0 * 2.0 ** j
            rad = (np.sqrt(r2) * sig) ** (2 * l) * np.exp(-r2 * sig ** 2)
            tot = (np.abs(B) ** 2).sum(0)
            dom = rad > 1e-6 * rad.max()
            ratio = tot[dom] / rad[dom]
            mon.event('radial_judged')
            mon.check(np.abs(tot - ratio[np.argmax(rad[dom])] * rad).max() <= 3e-5 * tot.max() + 1e-12, 'radial',
                      lambda: '%s: sum over m is not radial, ratio in [%g, %g]' % (what, ratio.min(), ratio.max()))
            ref = refs.solid_harmonics(shape, l, sig)
            mon.close((np.abs(ref) ** 2).sum(0) * 0 + tot, (np.abs(ref) ** 2).sum(0), 'energy3d', rtol=1e-4, atol=1e-12, detail=what)
            mon.close(np.abs(B), np.abs(ref), 'response3d', rtol=2e-5, scale=max(1.0, float(np.abs(ref).max())), detail=what)
        mon.state('bank3d', [list(shape), l, s0])
    # low-pass Gaussian bank of the same module
    from kymatio.scattering3d.filter_bank import gaussian_filter_bank
    G = np.asarray(gaussian_filter_bank(*shape, J, s0))
    for j in range(J + 1):
        mon.close(G[j].real, np.exp(-0.5 * r2 * (s0 * 2.0 ** j) ** 2), 'gaussian3d', rtol=1e-5, scale=1.0, detail='scale %d' % j)
        mon.check(np.abs(G[j].imag).max() == 0, 'gaussian3d_real', 'scale %d' % j)
    mon.nontrivial = True
    mon.sample = {'kw': kw, 'degrees': len(F)}


def run_case(case, mon):
    (run2d if case['kind'] == '2d' else run3d)(case['kw'], mon)
