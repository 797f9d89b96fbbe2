"""Chooses frontends for the value oracles and brings their outputs into one form."""
import numpy as np
from . import fe, gen

SHARE = [('torch', .12), ('sklearn', .04), ('tensorflow', .04), ('keras', .01), ('jax', .01)]


def choose(rng, d, kw, i):
    """(frontend, precision) for case i; `kw` may be replaced by a smaller one for the slow frontends."""
    u = float(rng.random())
    for f, p in SHARE:
        u -= p
        if u < 0:
            break
    else:
        return 'numpy', 'double', kw
    if d not in fe.AVAILABLE[f]:
        return 'numpy', 'double', kw
    if f in ('jax', 'tensorflow', 'keras'):
        kw = gen.fe_cfg(f, d, rng, True)
        if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 20:
            return 'numpy', 'double', kw
    if f == 'sklearn' and (kw.get('T') == 0 or d == 'jtfs' and kw.get('format') == 'joint' and kw.get('F') == 0):
        f = 'torch'
    if f == 'sklearn':
        kw = {k: v for k, v in kw.items() if k != 'out_type'}
    prec = 'double' if f == 'sklearn' or f == 'torch' and gen.chance(rng, .6) else 'single'
    return f, prec, kw


def evaluate(f, prec, d, kw, x, tail=None):
    """fe.norm of the output of frontend f; `tail` is the shape of one element of the output (needed where it is flattened)."""
    S = fe.build(f, d, kw)
    if f == 'torch' and prec == 'double':
        S = S.double()
    if f != 'numpy' and prec == 'single':
        x = x.astype('float32')
    y = fe.norm(fe.call(f, d, S, x))
    if f == 'sklearn':
        lead = x.shape[:x.ndim - fe.NDIM[d]]
        return y, lambda shape: [(p, a.reshape(lead + tuple(shape))) for p, a in y]
    return y, lambda shape: y


def condition(x, d, prec):
    """Signals of vanishing amplitude are rescaled where the transform computes in (or returns) single precision."""
    xs = float(np.abs(x).max()) if x.size else 0
    return x / xs if 0 < xs < 1e-10 and (prec == 'single' or d == '3d') else x
