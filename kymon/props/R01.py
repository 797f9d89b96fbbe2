"""Pickling, copying, moving to another process."""
from .. import gen

TECHNIQUE = 'differential monitor: original and reconstructed objects (pickle, copy, deepcopy, joblib, torch.save, another interpreter) observed side by side, bit for bit'
NOTE = 'Sampled parameters, moments of copying and protocols; other interpreters are really started. Keras layers are covered by M03 (configuration), not by pickle.'
RULE = 'seeded random (frontend, transform, parameters, moment and way of copying); non-trivial = output not all zero'
ASSUMPTIONS = ['same machine and library versions on both sides', 'single-threaded libraries']
REQUIRED = {'pickle': 300, 'deepcopy': 300, 'other_process': 60, 'independent': 200, 'altered_visibly': 50}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('R01', tier, seed)
    n = 44 if tier == 'quick' else 10 ** 9
    FAST = {'numpy': 3, 'torch': 3, 'sklearn': 2, 'tensorflow': 1, 'jax': 1}
    for i in range(n):
        for f, d in gen.pairs(list(FAST)):
            for k in range(FAST[f]):
                if f == 'jax' and tier == 'quick' and i % 11:
                    continue
                kw = gen.fe_cfg(f, d, rng, True)
                if f == 'jax' and d in ('1d', 'jtfs') and gen.cost1d(kw) > 9:
                    kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                yield dict(kind='%s:%s' % (f, d), fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))
        for f in FAST:
            if i % {'numpy': 11, 'sklearn': 11, 'torch': 11, 'tensorflow': 22, 'jax': 44}[f] == 0:
                objs = []
                for d in fe.AVAILABLE[f]:
                    for k in range(3 if f != 'jax' else 1):
                        kw = gen.fe_cfg(f, d, rng, True)
                        if f == 'jax' and d in ('1d', 'jtfs'):
                            kw = dict(J=2, shape=32, **({'J_fr': 1, 'Q': 1} if d == 'jtfs' else {}))
                        objs.append([d, kw])
                yield dict(kind='process:' + f, fe=f, objs=objs, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


CHILD = '''
import sys, pickle, warnings
warnings.simplefilter('ignore')
from kymon import fe, watch
blobs = pickle.load(sys.stdin.buffer)
out = []
for f, d, blob, xs in blobs:
    S = pickle.loads(blob)
    out.append((watch.public(S), [fe.norm(fe.call(f, d, S, x)) for x in xs], pickle.dumps(S)))
sys.stdout.buffer.write(b'RESULT' + pickle.dumps(out))
'''


def ways(f):
    import copy
    import io
    import pickle

    def joblib_copy(S):
        import joblib
        b = io.BytesIO()
        joblib.dump(S, b)
        b.seek(0)
        return joblib.load(b)

    def torch_copy(S):
        import torch
        b = io.BytesIO()
        torch.save(S, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    w = {'pickle%d' % p: (lambda S, p=p: pickle.loads(pickle.dumps(S, protocol=p))) for p in (2, 4, 5)}
    w['deepcopy'] = copy.deepcopy
    w['deepcopy_list'] = lambda S: copy.deepcopy([S, {'a': S}])[1]['a']
    w['twice'] = lambda S: pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(S)))))
    if f in ('numpy', 'sklearn'):
        w['joblib'] = joblib_copy
    if f == 'torch':
        w['torch_save'] = torch_copy
    return w


def run_case(case, mon):
    if case['kind'].startswith('process'):
        return other_process(case, mon)
    import copy
    import numpy as np
    from .. import fe, cmp, watch
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('r', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    ish = gen.in_shape(d, kw)
    inp = lambda lead: gen.signal('noise', list(lead) + ish, int(rng.integers(1 << 30))).astype('float32')
    xs = [inp([2]), inp([])]
    run = lambda S, x: fe.norm(fe.call(f, d, S, x))
    S = fe.build(f, d, kw)
    used = gen.chance(rng, .5)
    prec = None
    if f == 'torch' and gen.chance(rng, .3):
        S.double()
        xs = [x.astype('float64') for x in xs]
        prec = 'double'
        used = True  # the attributes follow the buffers at the next call
    if used:
        run(S, inp([3]).astype(xs[0].dtype))
    altered = gen.chance(rng, .35)
    if altered:
        # a copy is a copy of the object as it is now, filters the user adapted included
        plain = [run(S, x) for x in xs]
        spoil(S, f, d, .5, False)
        used = True
        mon.event('altered')
        if any(not np.array_equal(a, b) for x, y in zip(xs, plain) for (_, a), (_, b) in zip(run(S, x), y)):
            mon.event('altered_visibly')
    W = ways(f)
    W = {k: W[k] for k in gen.pick(rng, [['pickle5', 'deepcopy'], ['pickle2', 'deepcopy_list'], ['pickle4', 'deepcopy', 'twice']] + ([['joblib', 'deepcopy', 'pickle5']] if 'joblib' in W else []) +
                                   ([['torch_save', 'deepcopy', 'pickle4']] if 'torch_save' in W else []))}
    # what calls leave on an object is no parameter of it
    names = set(watch.public(fe.build(f, d, kw)))
    public = lambda S: {k: v for k, v in watch.public(S).items() if k in names}
    before = public(S)
    C = {}
    for k, w in W.items():
        ok, T = mon.attempt(lambda: w(S), K + 'failed', lambda: '%s %s use' % (k, 'after' if used else 'before'))
        if ok:
            C[k] = T
    if not C:
        return
    want = [run(S, x) for x in xs]
    for k, T in C.items():
        what = '%s %s use%s' % (k, 'after' if used else 'before', ' and after its filters were altered' if altered else '')
        mon.event('deepcopy' if 'deepcopy' in k else 'pickle')
        mon.check(T is not S and type(T) is type(S), K + 'type', lambda: '%s gives %s' % (what, type(T)))
        dd = watch.diff(before, public(T))
        mon.check(not dd, K + 'parameters', lambda: '%s: %s' % (what, dd[:3]))
        for x, y in zip(xs, want):
            cmp.identical(mon, run(T, x), y, K + 'output', what)
    mon.check(not watch.diff(before, public(S)), K + 'original', lambda: 'copying or calling changed the original: %s' % watch.diff(before, public(S))[:3])
    # independence: whatever happens to a copy, the original does not notice, and the other way round
    k = gen.pick(rng, sorted(C))
    T = C[k]
    mon.event('independent')
    spoil(T, f, d)
    for x, y in zip(xs, want):
        cmp.identical(mon, run(S, x), y, K + 'independent', 'original after its copy (%s) was altered' % k)
    others = [o for o in C if o != k]
    spoil(S, f, d)
    for o in others:
        for x, y in zip(xs, want):
            cmp.identical(mon, run(C[o], x), y, K + 'independent', 'copy (%s) after the original was altered' % o)
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'ways': sorted(W), 'used': used, 'precision': prec}


def spoil(S, f, d, factor=0, out_type=True):
    """Scale (or erase) the arrays an object owns through its public attributes."""
    import numpy as np
    if f == 'torch':
        import torch
        with torch.no_grad():
            for b in S.buffers():
                b.mul_(factor)

    def walk(v, depth=0):
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and v.flags.writeable:
            v *= factor
        elif isinstance(v, dict):
            for w in v.values():
                walk(w, depth + 1)
        elif isinstance(v, (list, tuple)) and depth < 6:
            for w in v:
                walk(w, depth + 1)
    for k in ('phi_f', 'psi1_f', 'psi2_f', 'filters_fr', 'phi', 'psi', 'filters', 'gaussian_filters'):
        if hasattr(S, k):
            walk(getattr(S, k))
    if out_type and hasattr(S, 'out_type') and f not in ('sklearn', 'keras'):
        S.out_type = 'list' if S.out_type != 'list' else 'array'


def other_process(case, mon):
    import os
    import pickle
    import subprocess
    import sys
    from .. import fe, cmp, watch
    f = case['fe']
    rng = gen.rng_for('p', case['seed'])
    blobs, wants, objs = [], [], []
    for d, kw in case['objs']:
        S = fe.build(f, d, kw)
        ish = gen.in_shape(d, kw)
        xs = [gen.signal('noise', lead + ish, int(rng.integers(1 << 30))).astype('float32') for lead in ([2], [])]
        if gen.chance(rng, .5):
            fe.call(f, d, S, xs[0])
            if gen.chance(rng, .5):
                spoil(S, f, d, .5, False)
                fe.call(f, d, S, xs[0])
        names = set(watch.public(fe.build(f, d, kw)))
        pub = {k: v for k, v in watch.public(S).items() if k in names}
        ok, blob = mon.attempt(lambda: pickle.dumps(S), 'process:%s:%s:pickle' % (f, d), str(kw))
        if not ok:
            continue
        blobs.append((f, d, blob, xs))
        objs.append([d, kw])
        wants.append((pub, [fe.norm(fe.call(f, d, S, x)) for x in xs]))
        mon.state('config', [f, d, kw])
    r = subprocess.run([sys.executable, '-c', CHILD], input=pickle.dumps(blobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=140)
    i = r.stdout.find(b'RESULT')
    if not mon.check(i >= 0, 'process:%s:failed' % f, lambda: 'objects could not be used in a fresh interpreter: %s' % r.stderr.decode('utf8', 'replace')[-1200:]):
        return
    outs = pickle.loads(r.stdout[i + 6:])
    for (d, kw), (pub, want), (pub2, got, back) in zip(objs, wants, outs):
        mon.event('other_process')
        K = 'process:%s:%s:' % (f, d)
        pub2 = {k: v for k, v in pub2.items() if k in pub}
        mon.check(not watch.diff(pub, pub2), K + 'parameters', lambda: '%s: %s' % (kw, watch.diff(pub, pub2)[:3]))
        for a, b in zip(got, want):
            cmp.identical(mon, a, b, K + 'output', 'in a fresh interpreter, %s' % kw)
        T = pickle.loads(back)
        pub3 = {k: v for k, v in watch.public(T).items() if k in pub}
        mon.check(not watch.diff(pub, pub3), K + 'round_trip', lambda: 'sent there and back: %s' % watch.diff(pub, pub3)[:3])
    mon.sample = {'fe': f, 'objects': len(blobs)}
