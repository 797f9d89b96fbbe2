"""Independent double-precision reference models (the oracles).

Written from the documented definitions, with plain convolutions, periodised
impulse responses and x[::k] subsampling; no kymatio import.
"""
import math
import numpy as np

SIGMA0, ALPHA, R_PSI = 0.1, 5.0, math.sqrt(0.5)


# ---------------------------------------------------------------- 1D filters
def xi_sigma_list(J, Q):
    """Center frequencies and widths of one wavelet layer (constant-Q then linear)."""
    xi_max = max(1.0 / (1.0 + 2.0 ** (3.0 / Q)), 0.35)
    fac = 2.0 ** (-1.0 / Q)
    sig_max = xi_max * (1 - fac) / (1 + fac) / math.sqrt(2 * math.log(1 / R_PSI))
    sig_min = SIGMA0 / 2 ** J
    out = []
    if sig_max <= sig_min:
        elbow = sig_max
    else:
        k = 0
        while True:
            out.append((xi_max * fac ** k, sig_max * fac ** k))
            if not sig_max * fac ** k > sig_min * 2.0 ** (1.0 / Q) * (1 + 1e-12):
                break
            k += 1
        elbow = out[-1][0]
    for q in range(1, Q):
        out.append((elbow * (1 - q / Q), sig_min))
    return out


def bump(N, xi, sigma, reps=7):
    """Gaussian bump at xi, periodised over the unit frequency interval.

    For negative xi the code under test truncates the periodisation (at the
    2e-5 level for the widest filter); the same truncation is used here and
    the comparisons' tolerance accepts the exact periodisation as well.
    """
    f = np.arange(N) / N
    acc = np.zeros(N)
    if xi < 0:
        reps = min(int(math.ceil(math.sqrt(-2 * sigma ** 2 * math.log(1e-7)) + 1)), 5) - 1
    for p in range(-reps, reps + 1):
        acc += np.exp(-(f + p - xi) ** 2 / (2 * sigma ** 2))
    return acc


def filt1d(N, xi, sigma):
    """Frequency response of the Morlet (xi != 0) or Gaussian (xi None) filter, l1-normalised."""
    if xi:
        g, l = bump(N, xi, sigma), bump(N, 0.0, sigma)
        f = g - l * (g[0] / l[0])
    else:
        f = bump(N, 0.0, sigma)
    return f / np.abs(np.fft.ifft(f)).sum()


def j_of(xi, sigma):
    ub = min(abs(xi) + ALPHA * sigma, 0.5)
    return int(math.floor(-math.log2(ub))) - 1


def at_level(f, k):
    """Response of the filter when the signal lives on the grid subsampled by 2**k."""
    if k == 0:
        return f
    h = np.fft.ifft(f)
    r = np.fft.fft(h[:: 2 ** k]) * 2 ** k
    return r.real if np.isrealobj(f) else r


def conv(x, f, s=1):
    """Circular convolution along the last axis, then keep one sample in s."""
    return np.fft.ifft(np.fft.fft(x) * f)[..., ::s]


def support(N, sigma, crit=1e-3):
    h = np.abs(np.fft.ifft(filt1d(N, None, sigma)))
    half = N // 2
    tail = np.cumsum(h[:half][::-1])[::-1]
    ok = np.where(tail <= crit)[0]
    return int(ok[0]) + 1 if len(ok) else half


class Cfg1D:
    def __init__(self, J, N, Q=1, T=None, stride=None, max_order=2, oversampling=0, J_extra=None):
        if isinstance(Q, (tuple, list)):
            Q = tuple(Q) if len(Q) > 1 else (Q[0], 1)
        else:
            Q = (Q, 1)
        self.J, self.N, self.Q, self.max_order = J, N, Q, max_order
        if T is None:
            self.T, self.mode = 2 ** J, 'local'
        elif T == 'global':
            self.T, self.mode = 2 ** J, 'global'
        elif T == 0:
            self.T, self.mode = 2 ** J, False
        else:
            self.T, self.mode = T, 'local'
        self.log2T = int(math.floor(math.log2(self.T)))
        if oversampling:
            self.ls = self.log2T - oversampling
        elif stride is None:
            self.ls = self.log2T
        else:
            self.ls = int(round(math.log2(stride)))
        min_pad = 3 * support(N, SIGMA0 / self.T)
        jp = min(int(math.ceil(math.log2(N + 2 * min_pad))), int(math.floor(math.log2(3 * N - 2))))
        self.Np = 2 ** jp
        self.left = (self.Np - N) // 2
        self.right = self.Np - N - self.left
        self.layers = []
        for q in self.Q[:2]:
            self.layers.append([dict(xi=xi, sigma=s, j=j_of(xi, s), f=filt1d(self.Np, xi, s))
                                for xi, s in xi_sigma_list(J, q)])
        self.phi = filt1d(self.Np, None, SIGMA0 / self.T)

    def idx(self, k):
        a, b = self.left, self.left + self.N
        return -(-a // 2 ** k), -(-b // 2 ** k)

    def pad(self, x):
        w = [(0, 0)] * (x.ndim - 1) + [(self.left, self.right)]
        return np.pad(np.asarray(x, np.float64), w, mode='reflect')


def scattering1d(c, x):
    """list of (n, j, coef) in (order, n) order; coef unpadded."""
    local = c.mode == 'local'
    u0 = c.pad(x)
    z = []

    def finish(u, k):
        if local:
            s = conv(u, at_level(c.phi, k), 2 ** (c.ls - k)).real
            a, b = c.idx(c.ls)
            return s[..., a:b]
        if c.mode == 'global':
            return u.sum(-1, keepdims=True)
        a, b = c.idx(k)
        return u[..., a:b]

    z.append(((), (), finish(u0, 0)))
    if c.max_order >= 1:
        for n1, p1 in enumerate(c.layers[0]):
            k1 = min(p1['j'], c.ls) if local else p1['j']
            u1 = np.abs(conv(u0, p1['f'], 2 ** k1))
            z.append(((n1,), (p1['j'],), finish(u1, k1)))
            if c.max_order >= 2:
                for n2, p2 in enumerate(c.layers[1]):
                    if p2['j'] > p1['j']:
                        k2 = max(min(p2['j'], c.ls) if local else p2['j'], k1)
                        u2 = np.abs(conv(u1, at_level(p2['f'], k1), 2 ** (k2 - k1)))
                        z.append(((n1, n2), (p1['j'], p2['j']), finish(u2, k2)))
    z.sort(key=lambda t: (len(t[0]), t[0]))
    return z


# ---------------------------------------------------------------- JTFS
class CfgJTFS:
    def __init__(self, J, N, J_fr, Q, T=None, stride=None, Q_fr=1, F=None, stride_fr=None):
        self.c = Cfg1D(J, N, Q, T, stride)
        self.J_fr = J_fr
        Q_fr = Q_fr[0] if isinstance(Q_fr, (tuple, list)) else Q_fr
        n_in = (J + 1) * self.c.Q[0]
        if F is None:
            self.F, self.mode_fr = 2 ** J_fr, 'local'
        elif F == 'global':
            self.F, self.mode_fr = 2 ** J_fr, 'global'
        elif F == 0:
            self.F, self.mode_fr = 2 ** J_fr, False
        else:
            self.F, self.mode_fr = F, 'local'
        self.log2F = int(math.floor(math.log2(self.F)))
        self.lsf = self.log2F if stride_fr is None else int(round(math.log2(stride_fr)))
        self.Nf = -(-int(n_in + 8 * min(self.F, 2 ** J_fr)) // 2 ** J_fr) * 2 ** J_fr
        pos = xi_sigma_list(J_fr, Q_fr)
        xs = pos + [(-xi, s) for xi, s in pos]
        low = dict(xi=0.0, sigma=SIGMA0 / 2 ** J_fr, j=J_fr, f=filt1d(self.Nf, None, SIGMA0 / 2 ** J_fr))
        self.psis = [low] + [dict(xi=xi, sigma=s, j=j_of(xi, s), f=filt1d(self.Nf, xi, s)) for xi, s in xs]
        self.phi = filt1d(self.Nf, None, SIGMA0 / self.F)


def jtfs(d, x):
    """list of dicts (n=(n_fr,) or (n2,n_fr), order, coef of shape (..., rows, time), rows n1 positions, spin)

    coef rows are those after frequential averaging/stride, one per retained n1 position.
    """
    c = d.c
    local, local_fr = c.mode == 'local', d.mode_fr == 'local'
    u0 = c.pad(x)
    out = []
    a, b = c.idx(c.ls if c.mode else 0)
    if c.mode == 'local':
        out.append(dict(n=(), order=0, coef=conv(u0, c.phi, 2 ** c.ls).real[..., a:b]))
    elif c.mode == 'global':
        out.append(dict(n=(), order=0, coef=u0.sum(-1, keepdims=True)))
    else:
        out.append(dict(n=(), order=0, coef=u0[..., a:b]))
    u1, k1s = [], []
    for p1 in c.layers[0]:
        k1 = min(p1['j'], c.ls) if local else p1['j']
        u1.append(np.abs(conv(u0, p1['f'], 2 ** k1)))
        k1s.append(k1)

    def freq(X, n1max, spinned):
        """X: (..., n1, time) -> for each frequential filter its modulus on the (strided) padded n1 axis."""
        w = [(0, 0)] * (X.ndim - 2) + [(0, d.Nf - n1max), (0, 0)]
        Xt = np.swapaxes(np.pad(X, w), -1, -2)
        for n_fr, p in enumerate(d.psis):
            if not spinned and p['xi'] < 0:
                continue
            kf = min(p['j'], d.lsf) if local_fr else p['j']
            yield n_fr, p, kf, np.abs(conv(Xt, p['f'], 2 ** kf))  # (..., time, n1)

    def avg_fr(U, p, kf, n1max):
        """U (..., time, n1')-> (rows array, stride)"""
        if d.mode_fr == 'global':
            return U.sum(-1, keepdims=True), n1max
        if d.mode_fr == 'local':
            if p['xi'] != 0:
                U = conv(U, at_level(d.phi, kf), 2 ** (d.lsf - kf)).real
                return U, 2 ** d.lsf
            return U, 2 ** kf
        return U, 2 ** kf

    # first order
    S1 = np.stack([conv(u, at_level(c.phi, k), 2 ** (c.ls - k)).real for u, k in zip(u1, k1s)], -2)
    n1max = len(u1)
    for n_fr, p, kf, U in freq(S1, n1max, False):
        if c.mode == 'global':
            U = U.sum(-2, keepdims=True)
        R, st = avg_fr(U, p, kf, n1max)
        R = np.swapaxes(R, -1, -2)
        if c.mode != 'global':
            i0, i1 = c.idx(c.ls)
            R = R[..., i0:i1]
        out.append(dict(n=(n_fr,), order=1, coef=R, n1max=n1max, n1_stride=st, spin=int(np.sign(p['xi'])),
                        j=(-1,), j_fr=p['j']))
    # second order
    for n2, p2 in enumerate(c.layers[1]):
        Y = []
        kk = None
        for p1, u, k1 in zip(c.layers[0], u1, k1s):
            if p2['j'] > p1['j']:
                k2 = max(min(p2['j'], c.ls) if local else p2['j'], k1)
                kk = k2
                Y.append(conv(u, at_level(p2['f'], k1), 2 ** (k2 - k1)))
        if not Y:
            continue
        # paths j1<j2 are the ones kept, stacked over n1 in order
        n1max = len(Y)
        Y = np.stack(Y, -2)
        for n_fr, p, kf, U in freq(Y, n1max, True):
            res = kk
            if c.mode == 'local':
                Ut = np.swapaxes(U, -1, -2)
                Ut = conv(Ut, at_level(c.phi, kk), 2 ** (c.ls - kk)).real
                U = np.swapaxes(Ut, -1, -2)
                res = c.ls
            elif c.mode == 'global':
                U = U.sum(-2, keepdims=True)
            R, st = avg_fr(U, p, kf, n1max)
            R = np.swapaxes(R, -1, -2)
            if c.mode != 'global':
                i0, i1 = c.idx(res)
                R = R[..., i0:i1]
            out.append(dict(n=(n2, n_fr), order=2, coef=R, n1max=n1max, n1_stride=st,
                            spin=int(np.sign(p['xi'])), j=(-1, p2['j']), j_fr=p['j']))
    out.sort(key=lambda t: (t['order'], t['n']))
    return out


# ---------------------------------------------------------------- 2D
def gabor2d(M, N, sigma, theta, xi, slant):
    R = np.array([[math.cos(theta), -math.sin(theta)], [math.sin(theta), math.cos(theta)]])
    C = R @ np.diag([1.0, slant ** 2]) @ R.T / (2 * sigma ** 2)
    acc = np.zeros((M, N), complex)
    for ex in range(-2, 3):
        for ey in range(-2, 3):
            u = np.arange(M)[:, None] + ex * M
            v = np.arange(N)[None, :] + ey * N
            q = C[0, 0] * u * u + 2 * C[0, 1] * u * v + C[1, 1] * v * v
            acc += np.exp(-q + 1j * xi * (u * math.cos(theta) + v * math.sin(theta)))
    return acc / (2 * 3.1415 * sigma ** 2 / slant)


def filters2d(M, N, J, L):
    psi = []
    for j in range(J):
        for t in range(L):
            th = (int(L - L / 2 - 1) - t) * math.pi / L
            g = gabor2d(M, N, 0.8 * 2 ** j, th, 0.75 * math.pi / 2 ** j, 4.0 / L)
            e = gabor2d(M, N, 0.8 * 2 ** j, th, 0.0, 4.0 / L)
            psi.append(dict(j=j, theta=t, f=np.fft.fft2(g - e * (g.sum() / e.sum())).real))
    return np.fft.fft2(gabor2d(M, N, 0.8 * 2 ** (J - 1), 0.0, 0.0, 1.0)).real, psi


def crop2d(f, k):
    """Response on the grid subsampled by 2**k, keeping only the low frequencies."""
    if k == 0:
        return f
    M, N = f.shape
    m, n = M // 2 ** k, N // 2 ** k
    # the frequencies kept are [0, m/2) and [M-m/2, M); m may be odd
    g = np.zeros((m, n))

    def keep(M, m):
        start = int(M * 2.0 ** (-k - 1)); ln = int(M * (1 - 2.0 ** (-k)))
        return [i for i in range(M) if not start <= i < start + ln]
    for i in keep(M, m):
        for l in keep(N, n):
            g[i % m, l % n] += f[i, l]
    return g


class Cfg2D:
    def __init__(self, J, shape, L=8, max_order=2, pre_pad=False):
        self.J, self.L, self.max_order, self.pre_pad = J, L, max_order, pre_pad
        self.shape = shape
        M, N = shape
        P = 2 ** J
        self.Mp, self.Np = (M // P + 2) * P, (N // P + 2) * P
        self.phi, self.psi = filters2d(self.Mp, self.Np, J, L)
        self.phi_l = [crop2d(self.phi, k) for k in range(J)]
        self._c = {}

    def level(self, n, k):
        if (n, k) not in self._c:
            self._c[n, k] = crop2d(self.psi[n]['f'], k)
        return self._c[n, k]


def reflect_pad2d(x, Mp, Np):
    M, N = x.shape[-2:]
    a, b = (Mp - M) // 2, (Np - N) // 2
    w = [(0, 0)] * (x.ndim - 2) + [(a, Mp - M - a), (b, Np - N - b)]
    return np.pad(x, w, mode='reflect')


def conv2(x, f, s):
    return np.fft.ifft2(np.fft.fft2(x) * f)[..., ::s, ::s]


def scattering2d(c, x):
    x = np.asarray(x, np.float64)
    u0 = x if c.pre_pad else reflect_pad2d(x, c.Mp, c.Np)
    J = c.J

    def low(u, k):
        # levels stop at J-1: at full subsampling nothing is left to do but filter at k
        s = conv2(u, c.phi_l[k], 2 ** (J - k)).real
        return s[..., 1:-1, 1:-1]
    z0, z1, z2 = [((), (), low(u0, 0))], [], []
    for n1, p1 in enumerate(c.psi):
        if c.max_order < 1:
            break
        j1 = p1['j']
        u1 = np.abs(conv2(u0, p1['f'], 2 ** j1))
        z1.append(((n1,), (j1,), low(u1, j1)))
        if c.max_order < 2:
            continue
        for n2, p2 in enumerate(c.psi):
            j2 = p2['j']
            if j2 > j1:
                u2 = np.abs(conv2(u1, c.level(n2, j1), 2 ** (j2 - j1)))
                z2.append(((n1, n2), (j1, j2), low(u2, j2)))
    return z0 + z1 + z2


# ---------------------------------------------------------------- 3D
def solid_harmonics(shape, l, sigma):
    """Fourier responses (2l+1, M, N, O) of the solid harmonic wavelets of degree l and width sigma.

    Only products summed over m (or |m=-l|) are observable up to phase, so the
    sign/phase convention per m is immaterial for the moduli.
    """
    from scipy.special import sph_harm, gamma
    ax = [2 * np.pi * np.fft.fftfreq(n) for n in shape]
    w0, w1, w2 = np.meshgrid(*ax, indexing='ij')
    r = np.sqrt(w0 ** 2 + w1 ** 2 + w2 ** 2)
    env = np.exp(-0.5 * (r * sigma) ** 2)
    if l == 0:
        return env[None].astype(complex)
    az = np.arctan2(w1, w2)
    pol = np.arctan2(w0, np.sqrt(w1 ** 2 + w2 ** 2)) + np.pi / 2
    dfact = 1
    for i in range(l + 1, 0, -2):
        dfact *= i
    if l % 2 == 0:
        norm = 1 / (2 * np.pi * math.sqrt(l + 0.5) * dfact)
    else:
        norm = 1 / (2 ** (0.5 * (l + 3)) * math.sqrt(math.pi * (2 * l + 1)) * gamma((l + 1) / 2 + 1))
    norm *= (2 * np.pi) ** 1.5
    return np.stack([(-1j) ** l * norm * sph_harm(m, l, az, pol) * (r * sigma) ** l * env for m in range(-l, l + 1)])


class Cfg3D:
    def __init__(self, J, shape, L=3, sigma_0=1, max_order=2, rotation_covariant=True, integral_powers=(0.5, 1., 2.)):
        self.J, self.shape, self.L = J, tuple(shape), L
        self.max_order, self.rc, self.q = max_order, rotation_covariant, list(integral_powers)
        self.f = [[solid_harmonics(shape, l, sigma_0 * 2.0 ** j) for j in range(J + 1)] for l in range(L + 1)]


def scattering3d(c, x):
    """array (..., P, L+1, q)"""
    x = np.asarray(x, np.float64)

    def mod(u, l, j):
        U = np.fft.fftn(u, axes=(-3, -2, -1))
        fs = c.f[l][j] if c.rc else c.f[l][j][:1]
        acc = 0
        for g in fs:
            acc = acc + np.abs(np.fft.ifftn(U * g, axes=(-3, -2, -1))) ** 2
        return np.sqrt(acc)

    def integ(u):
        return np.stack([(u ** q).sum((-3, -2, -1)) for q in c.q], -1)
    cols = []
    for l in range(c.L + 1):
        o1, o2 = [], []
        for j1 in range(c.J + 1):
            u1 = mod(x, l, j1)
            o1.append(integ(u1))
            if c.max_order == 2:
                for j2 in range(j1 + 1, c.J + 1):
                    o2.append(integ(mod(u1, l, j2)))
        cols.append(np.stack(o1 + o2, -2))
    return np.stack(cols, -2)
