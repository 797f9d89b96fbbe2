"""Adapter: builds and calls the public transform objects of every frontend."""
import importlib
import numpy as np

CLS = {'1d': 'Scattering1D', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D', 'jtfs': 'TimeFrequencyScattering'}
NDIM = {'1d': 1, '2d': 2, '3d': 3, 'jtfs': 1}
FRONTENDS = ['numpy', 'torch', 'jax', 'sklearn', 'tensorflow', 'keras']
AVAILABLE = {'numpy': ['1d', '2d', '3d', 'jtfs'], 'torch': ['1d', '2d', '3d', 'jtfs'], 'jax': ['1d', '2d', '3d', 'jtfs'],
             'sklearn': ['1d', '2d', '3d', 'jtfs'], 'tensorflow': ['1d', '2d', '3d', 'jtfs'], 'keras': ['1d', '2d']}
AFF = {'numpy': 'np', 'sklearn': 'np', 'torch': 'torch', 'jax': 'jax', 'tensorflow': 'tf', 'keras': 'tf'}


def kwargs(kw):
    """JSON configuration -> Python arguments (lists become tuples)."""
    return {k: (tuple(v) if isinstance(v, list) else v) for k, v in kw.items()}


def cls(fe, dim):
    return getattr(importlib.import_module('kymatio.' + fe), CLS[dim])


def build(fe, dim, kw):
    kw = kwargs(kw)
    if fe == 'keras':
        kw = {k: v for k, v in kw.items() if k not in ('shape', 'out_type')}
    return cls(fe, dim)(**kw)


def to_fe(fe, x):
    if fe == 'torch':
        import torch
        return torch.from_numpy(np.ascontiguousarray(x))
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        return tf.constant(np.asarray(x, np.float32))
    if fe == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x)
    return x


def to_np(y):
    if hasattr(y, 'detach'):
        return y.detach().cpu().numpy()
    return np.asarray(y)


def call(fe, dim, S, x):
    """Call on a numpy array through the main call style; returns the raw output."""
    if fe == 'sklearn':
        d = NDIM[dim]
        return S.predict(x.reshape(x.shape[:-d] + (-1,)))
    return S(to_fe(fe, x))


def norm(y):
    """Raw output -> list of (metadata, numpy array); arrays become a single entry."""
    if isinstance(y, list):
        return [({k: v for k, v in p.items() if k != 'coef'}, to_np(p['coef'])) for p in y]
    return [(None, to_np(y))]


def coefs(y):
    return [a for _, a in norm(y)]


def run(fe, dim, S, x):
    return coefs(call(fe, dim, S, x))


def flat(y):
    return np.concatenate([a.reshape(-1) for a in coefs(y)])
