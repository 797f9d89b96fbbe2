"""PyTorch module behaviour."""
import os

from .. import gen

TECHNIQUE = 'model-based monitor: random histories of module operations, each call judged against a freshly built object of the same precision'
NOTE = 'Sampled parameters and histories of up to 14 operations; device moves are observed on the meta device (no GPU here). No proof.'
RULE = 'seeded random (transform, parameters, history of module operations); non-trivial = some output compared is not all zero'
ASSUMPTIONS = ['single thread, one PyTorch build: equal computations give equal bits']
REQUIRED = {'call': 2000, 'op:double': 100, 'op:float': 100, 'op:load_state_dict': 100, 'op:alter': 100, 'op:nest': 50, 'op:functional': 50, 'op:meta': 50,
            'numpy_agreement': 100, 'buffer_scaling': 100, 'double_homogeneity': 100}
OPS = ['double', 'float', 'to_double', 'to_float', 'to_like', 'train', 'eval', 'requires_grad', 'zero_grad', 'alter', 'alter', 'load_state_dict', 'load_state_dict', 'save_load_file', 'nest',
       'unnest', 'functional', 'meta', 'apply', 'share', 'deepcopy', 'hook', 'call', 'call', 'call', 'call', 'swap', 'parent_double', 'parent_load', 'half_failure', 'meta_query']


def cases(tier, seed):
    rng = gen.rng_for('M01', tier, seed)
    n = 260 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for d in ('1d', '2d', '3d', 'jtfs'):
            kw = gen.fe_cfg('torch', d, rng, True)
            if i % 20 == 3 and tier == 'quick' or tier != 'quick' and gen.chance(rng, .1):
                # many filters
                kw = {'1d': dict(J=8, shape=512, Q=[16, 4], max_order=1), '2d': dict(J=4, shape=[16, int(rng.integers(16, 33))], L=int(rng.integers(8, 13)), max_order=1),
                      '3d': dict(J=3, shape=[6, 7, 6], L=5), 'jtfs': dict(J=5, J_fr=3, shape=128, Q=[8, 2], F='global')}[d]
            yield dict(kind=d, dim=d, kw=kw, seed=int(rng.integers(1 << 30)), ops=[gen.pick(rng, OPS) for _ in range(int(rng.integers(4, 15)))])


def parts(y):
    return [p['coef'] for p in y] if isinstance(y, list) else [y]


def run_case(case, mon):
    import copy
    import io
    import numpy as np
    import torch
    from .. import fe, cmp
    d, kw = case['dim'], case['kw']
    rng = gen.rng_for('m', case['seed'])
    ish = gen.in_shape(d, kw)
    K = d + ':'
    build = lambda: fe.build('torch', d, kw)
    S = build()
    mon.state('config', [d, kw])
    lead = gen.pick(rng, [[], [2], [1, 2]])
    x64 = gen.signal('noise', lead + ish, case['seed']) + .1
    X = {t: torch.tensor(x64).to(t) for t in (torch.float32, torch.float64)}
    F = {}

    def fresh(t):
        """Output (metadata, arrays) of an object nobody has touched."""
        if t not in F:
            F[t] = fe.norm(build().to(t)(X[t].clone()))
        return F[t]

    mon.check(len(list(S.parameters())) == 0, K + 'parameters', 'the module has trainable parameters')
    mon.check(isinstance(S, torch.nn.Module), K + 'module', 'not a torch.nn.Module')
    # double precision is double precision
    for t, name in ((torch.float32, 'single'), (torch.float64, 'double')):
        for _, a in fresh(t):
            mon.check(a.dtype == {'single': np.float32, 'double': np.float64}[name], K + 'dtype', lambda: '%s-precision module returns %s' % (name, a.dtype))
    N = fe.build('numpy', d, kw)
    xs = float(np.abs(x64).max())
    yn = fe.norm(N(x64))
    mon.event('numpy_agreement', 2)
    cmp.outputs(mon, d, kw, fresh(torch.float64), yn, xs, K + 'numpy_double')
    cmp.outputs(mon, d, kw, fresh(torch.float32), yn, xs, K + 'numpy_single')
    D = build().double()
    mon.event('double_homogeneity')
    for (m, a), (_, b) in zip(fresh(torch.float64), fe.norm(D(X[torch.float64] * 3))):
        q = 3.0 ** np.array(kw.get('integral_powers', (.5, 1., 2.))) if d == '3d' else 3.0
        mon.close(b, a * q, K + 'double_accuracy', rtol=1e-11, atol=1e-13 if d != '3d' else 1e-6, detail='S(3x) against 3 S(x) in double precision')
    # all filters are buffers: doubling every buffer multiplies each path by a power of two
    B = build()
    with torch.no_grad():
        for b in B.buffers():
            b.mul_(2)
    mon.event('buffer_scaling')
    scaled = fe.norm(B(X[torch.float32].clone()))
    for i, ((m, a), (_, b)) in enumerate(zip(fresh(torch.float32), scaled)):
        if d == '3d':
            # first- and second-order paths in the documented order
            J = kw['J']
            order = np.array([1] * (J + 1) + [2] * (J * (J + 1) // 2 if kw.get('max_order', 2) > 1 else 0))
            f = (2.0 ** order)[:, None, None] ** np.array(kw.get('integral_powers', (.5, 1., 2.)))
            mon.close(b, a * f, K + 'buffers', rtol=1e-5, atol=1e-30, detail='output after doubling all buffers')
            continue
        av = 0 if kw.get('T') in (0, 'global') else 1
        if m is not None and d == '1d':
            want = a * 2.0 ** (m['order'] + av if m['order'] or kw.get('T') != 0 else 0)
            mon.close(b, want, K + 'buffers', rtol=1e-6, atol=1e-30, detail='path %s after doubling all buffers' % (m,))
        elif d == '2d' and m is not None:
            mon.close(b, a * 2.0 ** (len(m['j']) + 1), K + 'buffers', rtol=1e-6, atol=1e-30, detail='path after doubling all buffers')
        elif d == '2d':
            p = 1 + kw['J'] * kw['L']
            f = 2.0 ** np.array([1] + [2] * (p - 1) + [3] * (a.shape[-3] - p))[:, None, None]
            mon.close(b, a * f, K + 'buffers', rtol=1e-6, atol=1e-30, detail='output after doubling all buffers')
        elif d == '1d':
            o = np.array(build().meta()['order'])
            mon.close(b, a * (2.0 ** (o + av))[:, None], K + 'buffers', rtol=1e-6, atol=1e-30, detail='output after doubling all buffers')
        else:
            # every JTFS coefficient beyond order zero went through a temporal and a frequential wavelet
            with np.errstate(all='ignore'):
                r = b / a
            z = np.abs(a) > 1e-20
            lo = 1 if i == 0 and not (m is not None and m.get('order')) else 4
            ok = bool(np.all(np.log2(r[z]) > np.log2(lo) - 1e-3) and np.all(np.abs(np.log2(r[z]) - np.round(np.log2(r[z]))) < 1e-3)) if z.any() else True
            mon.check(ok, K + 'buffers', lambda: 'output %d %s after doubling all buffers: ratios %s' % (i, m, np.unique(r[z])[:5]))

    # the state_dict holds every buffer
    mon.event('buffer_listed', len(list(S.buffers())))
    mon.check(sorted(k for k, _ in S.named_buffers()) == sorted(S.state_dict()), K + 'state_dict', lambda: '%d buffers, %d entries in the state_dict' % (len(list(S.buffers())), len(S.state_dict())))
    good = {k: v.clone() for k, v in build().state_dict().items()}
    mon.check(len(good) > 0, K + 'state_dict', 'the state_dict is empty')

    class Net(torch.nn.Module):
        def __init__(self, s):
            super().__init__()
            self.sub = torch.nn.Sequential(torch.nn.Identity(), s)

        def forward(self, v):
            return self.sub(v)
    net, t, altered, grad = None, torch.float32, False, False
    hooks = []

    def call():
        nonlocal grad
        mon.event('call')
        xin = X[t].clone().requires_grad_(grad)
        style = int(rng.integers(4))
        with torch.set_grad_enabled(bool(rng.integers(2))):
            y = (S(xin), S.scattering(xin), S.forward(xin), (net or S)(xin))[style] if False else \
                S(xin) if style == 0 else S.scattering(xin) if style == 1 else S.forward(xin) if style == 2 else (net or S)(xin)
        mon.check(torch.equal(xin.detach(), X[t]), K + 'input', 'the input was modified')
        y = fe.norm(y)
        if altered:
            # not comparable to the fresh object, but different from it
            diff = any(not np.array_equal(a, b) for (_, a), (_, b) in zip(y, fresh(t)))
            mon.check(diff or not any(a.any() for _, a in fresh(t)), K + 'altered', 'altering all buffers did not change the output')
            return
        cmp.identical(mon, y, fresh(t), K + 'history', 'after %s' % done)
    done = []
    for op in case['ops'] + ['load_state_dict', 'float', 'call', 'double', 'call', 'float', 'call']:
        done.append(op)
        mon.event('op:' + op)
        owner = net if net is not None and op.startswith('parent') else S
        if op in ('double', 'to_double', 'parent_double'):
            r = owner.double() if op != 'to_double' else S.to(torch.float64)
            mon.check(r is owner, K + 'returns_self', op)
            t = torch.float64
        elif op in ('float', 'to_float'):
            r = S.float() if op == 'float' else S.to(dtype=torch.float32, device='cpu')
            mon.check(r is S, K + 'returns_self', op)
            t = torch.float32
        elif op == 'to_like':
            t = gen.pick(rng, [torch.float32, torch.float64])
            S.to(torch.zeros(1, dtype=t))
        elif op in ('train', 'eval'):
            getattr(S, op)()
        elif op == 'requires_grad':
            grad = not grad
            S.requires_grad_(False)
        elif op == 'zero_grad':
            S.zero_grad()
        elif op == 'alter':
            with torch.no_grad():
                for b in S.buffers():
                    b.mul_(-1.25).add_(.25)
            altered = True
        elif op in ('load_state_dict', 'parent_load', 'save_load_file'):
            sd = good
            if op == 'save_load_file':
                f = io.BytesIO()
                torch.save(build().state_dict(), f)
                f.seek(0)
                sd = torch.load(f, weights_only=True)
            if op == 'parent_load' and net is not None:
                r = net.load_state_dict(Net(build()).state_dict())
            else:
                r = S.load_state_dict(sd)
            mon.check(not r.missing_keys and not r.unexpected_keys, K + 'state_dict', lambda: 'state_dict keys do not match: %s' % (r,))
            altered = False
        elif op == 'nest':
            if net is None:
                net = Net(S)
                mon.check(len(list(net.parameters())) == 0 and len(list(net.buffers())) == len(list(S.buffers())), K + 'nested', 'buffers of the nested module')
        elif op == 'unnest':
            net = None
        elif op == 'functional':
            # called with another set of buffers, the module is as before afterwards
            other = {k: v * 2 for k, v in S.named_buffers()}
            y2 = fe.norm(torch.func.functional_call(S, other, (X[t],)))
            y1 = fe.norm(S(X[t]))
            mon.check(any(not np.array_equal(a, b) for (_, a), (_, b) in zip(y1, y2)) or not any(a.any() for _, a in y1), K + 'functional', 'functional_call ignored the buffers given')
        elif op == 'meta':
            M = copy.deepcopy(S).to('meta')
            y = parts(M(X[t].to('meta')))
            mon.check(all(a.device.type == 'meta' for a in y), K + 'device', 'output not on the device of the module')
            mon.check([tuple(a.shape) for a in y] == [a.shape for _, a in fresh(t)], K + 'device_shape', 'shapes on the meta device')
            mon.check(all(b.device.type == 'cpu' for b in S.buffers()), K + 'device', 'moving a copy moved the original')
        elif op == 'apply':
            seen = []
            S.apply(seen.append)
            mon.check(any(m is S for m in seen), K + 'apply', 'apply does not reach the module')
        elif op == 'share':
            S.share_memory()
        elif op == 'deepcopy':
            S = copy.deepcopy(S)
            net = None
        elif op == 'swap':
            # state of this object into a new one of the same parameters
            S2 = build().to(t)
            S2.load_state_dict(S.state_dict())
            S, net = S2, None
        elif op == 'hook':
            n = []
            h = S.register_forward_hook(lambda m, a, o: n.append(1))
            S(X[t])
            h.remove()
            mon.check(n == [1], K + 'hook', 'forward hook called %d times' % len(n))
        elif op == 'half_failure':
            # a call of the wrong precision is refused and leaves no trace
            try:
                S(X[torch.float64 if t == torch.float32 else torch.float32])
            except (TypeError, RuntimeError, ValueError):
                mon.event('mixed_precision_refused')
        elif op == 'meta_query':
            if hasattr(S, 'meta'):
                S.meta(), S.output_size()
            repr(S), S.state_dict(), list(S.named_buffers())
        if op == 'call' or gen.chance(rng, .35):
            call()
        mon.check(all(b.dtype == t for b in S.buffers() if b.is_floating_point()), K + 'buffer_dtype', lambda: 'buffer dtypes after %s' % done)
        mon.check(len(list(S.parameters())) == 0, K + 'parameters', 'the module acquired parameters')
        if mon.violations:
            return
    mon.state('history', done)
    mon.sample = {'dim': d, 'kw': kw, 'history': done}
