"""JAX transformations."""
from .. import gen

TECHNIQUE = 'differential monitor: direct JAX calls observed against jit, vmap, grad/jvp compositions and NumPy inputs on one object, with leak checking'
NOTE = 'Sampled parameters and inputs, random order of direct and traced calls; CPU only. jax.checking_leaks is on while tracing.'
RULE = 'seeded random (transform, parameters, batch shape, JAX transformation); non-trivial = direct output not all zero'
ASSUMPTIONS = ['single precision: compiled kernels may round differently', 'gradient comparisons at generic inputs']
REQUIRED = {'jit': 30, 'vmap': 30, 'numpy_input': 30, 'jvp': 8, 'after_trace': 40}


def cases(tier, seed):
    rng = gen.rng_for('M04', tier, seed)
    n = 14 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in ('1d', '2d', '3d', 'jtfs'):
            while True:
                kw = gen.fe_cfg('jax', d, rng, True)
                if d in ('1d', 'jtfs') and gen.cost1d(kw) > (24 if d == '1d' else 9):
                    continue
                if d == '2d' and kw['L'] * kw['J'] > 6:
                    continue
                if d == '3d' and kw['sigma_0'] * 2 ** kw['J'] > min(kw['shape']) / 3:
                    continue
                break
            yield dict(kind=d, aff='jax', dim=d, kw=kw, seed=int(rng.integers(1 << 30)))


def run_case(case, mon):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from .. import fe, cmp
    d, kw = case['dim'], case['kw']
    rng = gen.rng_for('j', case['seed'])
    ish = gen.in_shape(d, kw)
    K = d + ':'
    mon.state('config', [d, kw])
    S = fe.build('jax', d, kw)
    E = fe.build('jax', d, kw)  # never traced
    inp = lambda lead: (gen.signal('noise', list(lead) + ish, int(rng.integers(1 << 30))) + .1).astype('float32')
    arrays = lambda y: [p['coef'] for p in y] if isinstance(y, list) else [y]
    coefs = lambda v: arrays(S(v))
    x = inp([2])
    xs = float(np.abs(x).max())
    ref = fe.norm(E(jnp.asarray(x)))

    def judge(out, want, what, key, lead_in=xs):
        mon.check(all(isinstance(o, jax.Array) for o in out), K + 'type', lambda: '%s returns %s' % (what, [type(o) for o in out][:1]))
        cmp.outputs(mon, d, kw, [(m, np.asarray(o)) for (m, _), o in zip(want, out)] if len(out) == len(want) else [(None, np.asarray(o)) for o in out],
                    want, xs, K + key, detail=what)
    ops = ['direct', 'numpy_input', 'jit', 'vmap', gen.pick(rng, ['jvp', 'jit_vmap', 'vmap_vmap', 'grad_jit', 'scan', 'eval_shape']), gen.pick(rng, ['jvp', 'jit_scattering', 'vjp', 'in_axes'])]
    ops = [ops[int(i)] for i in rng.permutation(len(ops))]
    for op in ops:
        mon.event(op)
        if op == 'direct':
            y = S(jnp.asarray(x))
            judge(arrays(y), ref, 'direct call', op)
            if isinstance(y, list):
                mon.check([cmp.meta_of(m) for m, _ in fe.norm(y)] == [cmp.meta_of(m) for m, _ in ref], K + 'meta', 'metadata')
        elif op == 'numpy_input':
            judge(arrays(S(x)), ref, 'call on a NumPy array', op)
        elif op == 'jit':
            with jax.checking_leaks():
                f = jax.jit(coefs)
                judge(f(jnp.asarray(x)), ref, 'under jit', op)
            x1 = inp([2])
            judge(f(x1), fe.norm(E(jnp.asarray(x1))), 'second call of a jitted function', op)
            x1 = inp([])
            judge(jax.jit(coefs)(x1), fe.norm(E(jnp.asarray(x1))), 'under jit without batch dimension', op)
        elif op == 'jit_scattering':
            judge(jax.jit(lambda v: arrays(S.scattering(v)))(x), ref, 'jit of scattering', op)
        elif op == 'vmap':
            judge(jax.vmap(coefs)(jnp.asarray(x)), ref, 'under vmap', op)
        elif op == 'in_axes':
            judge(jax.vmap(coefs, in_axes=1)(jnp.asarray(np.moveaxis(x, 0, 1))), ref, 'under vmap over axis 1', op)
        elif op == 'jit_vmap':
            judge(jax.jit(jax.vmap(coefs))(jnp.asarray(x)), ref, 'under jit and vmap', op)
        elif op == 'vmap_vmap':
            x2 = inp([2, 2])
            judge(jax.vmap(jax.vmap(coefs))(jnp.asarray(x2)), fe.norm(E(jnp.asarray(x2))), 'under two vmaps', op)
        elif op == 'scan':
            _, o = jax.lax.scan(lambda c, v: (c, coefs(v)), 0, jnp.asarray(x))
            judge(o, ref, 'inside lax.scan', op)
        elif op == 'eval_shape':
            o = jax.eval_shape(coefs, jax.ShapeDtypeStruct(x.shape, jnp.float32))
            mon.check([tuple(a.shape) for a in o] == [a.shape for _, a in ref] and all(a.dtype == jnp.float32 for a in o), K + op, lambda: 'abstract shapes %s' % ([a.shape for a in o],))
        else:
            v = jnp.asarray(gen.signal('noise', x.shape, case['seed'] + 1).astype('float32'))
            t = jnp.asarray(x)
            out, tan = jax.jvp(coefs, (t,), (v,))
            judge(out, ref, 'primal output of jvp', op)
            r = gen.rng_for('w', case['seed'])
            w = [jnp.asarray(r.standard_normal(a.shape).astype('float32')) for _, a in ref]
            if op == 'vjp':
                _, pull = jax.vjp(coefs, t)
                g, = pull(w)
            elif op == 'grad_jit':
                g = jax.jit(jax.grad(lambda u: sum(jnp.sum(a * b) for a, b in zip(coefs(u), w))))(t)
            else:
                g = jax.grad(lambda u: sum(jnp.sum(a * b) for a, b in zip(coefs(u), w)))(t)
            f = float(sum(jnp.sum(a * b) for a, b in zip(tan, w)))
            b = float(jnp.sum(g * v))
            s = float(sum(jnp.sum(jnp.abs(a * c)) for a, c in zip(tan, w)) + jnp.sum(jnp.abs(g * v)))
            mon.event('jvp')
            mon.below(abs(f - b), 1e-3 * s + 1e-6, K + 'forward_reverse', 'forward mode %.7g, reverse mode %.7g (%s)' % (f, b, op))
        # the object can still be used outside the trace
        if op not in ('direct', 'numpy_input'):
            mon.event('after_trace')
            judge(arrays(S(jnp.asarray(x))), ref, 'direct call after %s' % op, 'after_trace')
        if mon.violations:
            return
    mon.sample = {'dim': d, 'kw': kw, 'operations': ops}
