"""Purity of construction and calls."""
from .. import gen

TECHNIQUE = 'process monitor: audit-hook event trace, global-state snapshots, content fingerprints of inputs, parameters and filters, aliasing probes'
NOTE = 'Sampled parameters, inputs and frontends; around each observed construction and call the audit events, the process state and the contents of all caller-owned and object-owned data are compared. No proof.'
RULE = 'seeded random (frontend, transform, parameters, input layout); non-trivial = output not all zero'
ASSUMPTIONS = ['one unmonitored construction and call per configuration loads lazily imported code first', 'Python-level audit events and the state listed in kymon/watch.py']
REQUIRED = {'call_watched': 400, 'construction_watched': 200, 'output_tampered': 100, 'read_only_input': 50, 'first_use_watched': 200, 'entry_point': 100}
N = {'numpy': 14, 'torch': 6, 'sklearn': 4, 'tensorflow': 4, 'keras': 1, 'jax': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('P01', tier, seed)
    n = 45 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            if f in ('jax', 'keras', 'tensorflow') and tier == 'quick' and i % 5:
                continue
            if i % 15 == 0 and f not in ('jax', 'keras'):
                kw = gen.bulk(d, rng)
                yield dict(kind='bulk:' + f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)),
                           lead=[], sig=gen.sigspec(rng, [], amps=(1.,)), layout=int(rng.integers(4)))
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, True)
                if d == '3d' and gen.chance(rng, .6):
                    kw['integral_powers'] = gen.pick(rng, [[2.0], [0.5], [3.0, 0.5], [2.0, 1.5, 0.7], [1.0, 1.0]])
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)),
                           lead=gen.lead(rng, 2, 2) if f != 'keras' else [2], sig=gen.sigspec(rng, [], amps=(1.,)), layout=int(rng.integers(4)))


def run_case(case, mon):
    import copy
    import numpy as np
    from .. import fe, cmp, watch
    f, d, kw = case['fe'], case['dim'], case['kw']
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    dt = 'float64' if case['seed'] % 2 and f in ('numpy', 'sklearn', 'torch') and not (f == 'torch') else 'float32'
    shape = case['lead'] + gen.in_shape(d, kw)
    args = fe.kwargs(kw)
    if d == '3d':
        args['integral_powers'] = list(args.get('integral_powers', (0.5, 1.0, 2.0)))
    if f == 'keras':
        args = {k: v for k, v in args.items() if k not in ('shape', 'out_type')}
    cls = fe.cls(f, d)
    x = gen.make(dict(case['sig'], shape=shape), dt)
    if f == 'sklearn':
        x = x.reshape(tuple(case['lead']) + (-1,))
        use = lambda S, v: S.predict(v)
    else:
        use = lambda S, v: S(v)
    if f in ('numpy', 'sklearn'):
        if case['layout'] == 1:
            x = np.asfortranarray(x)
        elif case['layout'] == 2:
            x = np.repeat(x, 2, axis=-1)[..., ::2]
        elif case['layout'] == 3:
            x.setflags(write=False)
            mon.event('read_only_input')
        mon.state('layout', case['layout'])
        t = x
        content = lambda: (t.tobytes(), t.shape, t.strides, str(t.dtype), t.flags.writeable)
    elif f == 'torch':
        t = fe.to_fe(f, x)
        content = lambda: (t.numpy().tobytes(), tuple(t.shape), t.stride(), str(t.dtype), t.requires_grad, t._version, t.grad is None)
    else:
        t = fe.to_fe(f, x)
        content = lambda: (np.asarray(t).tobytes(), tuple(t.shape), str(t.dtype))
    before_args = copy.deepcopy(args)
    c0 = content()
    k0 = watch.sticky()
    if case['seed'] % 3 == 0:
        import kymatio
        S = getattr(kymatio, fe.CLS[d])(frontend=f, **args)
        mon.event('entry_point')
    else:
        S = cls(**args)
    use(S, t)  # loads what is imported lazily
    k1 = watch.sticky()
    mon.event('first_use_watched')
    mon.check(k0 == k1, K + 'first:state', lambda: 'the first use changed %s' % watch.diff(k0, k1))
    mon.check(args == before_args and content() == c0, K + 'first:args', lambda: 'parameters (from %s to %s) or input changed' % (before_args, args))
    args = copy.deepcopy(before_args)
    watch.scramble(case['seed'])
    s0 = watch.snapshot()
    with watch.Audit() as a:
        S = cls(**args)
    s1 = watch.snapshot()
    mon.event('construction_watched')
    mon.check(not a.events, K + 'construct:events', lambda: 'construction caused %s' % a.events[:5])
    mon.check(s0 == s1, K + 'construct:state', lambda: 'construction changed %s' % watch.diff(s0, s1))
    mon.check(args == before_args, K + 'construct:args', lambda: 'parameters changed from %s to %s' % (before_args, args))
    if f == 'keras':
        use(S, t)
    c0, p0 = content(), watch.public(S)
    watch.scramble(case['seed'] + 1)
    s0 = watch.snapshot()
    with watch.Audit() as a:
        y = use(S, t)
    s1 = watch.snapshot()
    mon.event('call_watched')
    mon.event('attributes_compared', len(p0))
    mon.check(not a.events, K + 'call:events', lambda: 'the call caused %s' % a.events[:5])
    mon.check(s0 == s1, K + 'call:state', lambda: 'the call changed %s' % watch.diff(s0, s1))
    mon.check(content() == c0, K + 'call:input', 'the call changed its input')
    mon.check(args == before_args, K + 'call:args', lambda: 'parameters changed from %s to %s' % (before_args, args))
    p1 = watch.public(S)
    p1 = {k: v for k, v in p1.items() if k in p0}
    mon.check(p0 == p1, K + 'call:attributes', lambda: 'the call changed %s' % watch.diff(p0, p1))
    ya = fe.norm(y)
    ref = [(p, v.copy()) for p, v in ya]
    mon.nontrivial |= any(np.any(v) for _, v in ref)
    y2 = use(S, t)
    yb = fe.norm(y2)
    cmp.identical(mon, yb, ref, K + 'repeat', 'second call')
    # metadata queries change nothing either
    if d in ('1d', 'jtfs') and f not in ('sklearn', 'keras'):
        S.meta(), S.output_size(), S.output_size(detail=True)
        p1 = {k: v for k, v in watch.public(S).items() if k in p0}
        mon.check(p0 == p1, K + 'meta:attributes', lambda: 'meta() changed %s' % watch.diff(p0, p1))
    # aliasing
    if f in ('numpy', 'sklearn'):
        for (_, u), (_, v) in zip(ya, yb):
            mon.check(not np.shares_memory(u, t), K + 'alias:input', 'output shares memory with the input')
            mon.check(not np.may_share_memory(u, v) or not np.shares_memory(u, v), K + 'alias:output', 'outputs of two calls share memory')
    if f in ('numpy', 'sklearn', 'torch'):
        mon.event('output_tampered')
        for p in (y if isinstance(y, list) else [y]):
            v = p['coef'] if isinstance(p, dict) else p
            if f == 'torch':
                v.detach().fill_(float('nan'))
            elif v.flags.writeable:
                v.fill(np.nan)
            if isinstance(p, dict):
                for k in list(p):
                    if isinstance(p[k], dict) or isinstance(p[k], list):
                        p[k].clear()
                    p[k] = None
        mon.check(content() == c0, K + 'alias:tamper_input', 'writing to the output changed the input')
        cmp.identical(mon, fe.norm(y2), ref, K + 'alias:tamper_output', 'an earlier output was overwritten; output of the other call')
        cmp.identical(mon, fe.norm(use(S, t)), ref, K + 'alias:tamper_state', 'an output was overwritten; third call')
        if f != 'torch' and x.flags.writeable or f == 'torch':
            y3 = use(S, t)
            if f == 'torch':
                t.fill_(7.0)
            else:
                t.fill(7.0)
            mon.event('input_tampered')
            cmp.identical(mon, fe.norm(y3), ref, K + 'alias:late_input', 'the input was overwritten after the call')
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'attributes': len(p0)}
