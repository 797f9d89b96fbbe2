"""Independence of results from earlier constructions and calls."""
from .. import gen

TECHNIQUE = 'history monitor: random histories over many objects, every output compared bit for bit with that of a pristine process'
NOTE = 'Sampled histories of about 30 operations over families of similar objects; each valid call is judged against a reference computed in a freshly forked process in which nothing else was ever built. No proof.'
RULE = 'seeded random histories (construct, duplicate, destroy, call with varying batch and dtype, failing calls and constructions, metadata, out_type switches); non-trivial = some output not zero'
ASSUMPTIONS = ['numpy and torch: references from forked pristine processes, bit-identical', 'jax and tensorflow: references from the NumPy frontend, to single precision (these libraries cannot be forked)']
REQUIRED = {'call_judged': 1000, 'failed_call': 200, 'object_destroyed': 100, 'history': 60, 'switch': 50, 'buffer_reused': 300, 'result_overwritten': 200, 'held_result_judged': 300}
INVALID = {'1d': [dict(J=3, shape=[32, 2]), dict(J=3, shape=32, Q=0), dict(J=3, shape=32, T=64)], 'jtfs': [dict(J=3, J_fr=2, shape=64, Q=2, Q_fr=0)],
           '2d': [dict(J=4, shape=[8, 8])], '3d': []}


def family(rng, f, d, n):
    """Similar configurations: neighbours differ in one parameter."""
    while True:
        kw = gen.fe_cfg(f, d, rng, True)
        if kw.get('T') == 0 or kw.get('F') == 0:
            continue
        kw.pop('out_type', None)
        break
    if d == '1d' and gen.chance(rng, .3):
        # long enough for nearly equal parameters to give nearly equal filters
        J = int(rng.integers(6, 10))
        kw = dict(J=J, shape=int(rng.integers(2 ** J, 2048)), Q=int(gen.pick(rng, [1, 1, 2])))
    out = [kw]
    for _ in range(40):
        if len(out) >= n:
            break
        o = gen.fe_cfg(f, d, rng, True)
        if o.get('T') == 0 or o.get('F') == 0:
            continue
        base = dict(gen.pick(rng, out))
        if gen.chance(rng, .35):
            near(rng, d, base)
            if valid(d, base) and base not in out:
                out.append(base)
            continue
        k = gen.pick(rng, sorted(set(o) - {'out_type'} - ({'J'} if d != '3d' else set())))
        if o.get(k) == base.get(k):
            continue
        base[k] = o[k]
        if valid(d, base) and base not in out:
            out.append(base)
    return out


def near(rng, d, kw):
    """Changes one parameter as little as possible."""
    T = kw.get('T', 2 ** kw['J'])
    if d in ('1d', 'jtfs') and T != 'global':
        if gen.chance(rng, .7):
            kw['T'] = float(max(1.0, T - gen.pick(rng, [1e-3 * T, 1e-2 * T, .05 * T, 1.0])))
        else:
            kw['shape'] += int(gen.pick(rng, [-1, 1]))
    elif d == '3d' and gen.chance(rng, .7):
        kw['sigma_0'] = kw.get('sigma_0', 1) * gen.pick(rng, [1 + 1e-5, .999, 1.02])
    elif d in ('2d', '3d'):
        sh = list(kw['shape'])
        sh[int(rng.integers(len(sh)))] += 1
        kw['shape'] = sh
    else:
        kw['shape'] += int(gen.pick(rng, [-1, 1]))


def valid(d, kw):
    import math
    if d in ('1d', 'jtfs'):
        N = kw['shape']
        if 2 ** kw['J'] > N:
            return False
        T = kw.get('T', 2 ** kw['J'])
        if T == 'global':
            if kw.get('stride') or kw.get('oversampling'):
                return False
            T = 2 ** kw['J']
        if T > N or kw.get('stride', 1) > 2 ** int(math.log2(T)) or 2 ** kw.get('oversampling', 0) > 2 ** int(math.log2(T)):
            return False
        if kw.get('stride') and kw.get('oversampling'):
            return False
        q = kw['Q'] if isinstance(kw['Q'], int) else kw['Q'][0]
        if gen.cost1d(kw) > 300:
            return False
        if d == 'jtfs':
            n_in = (kw['J'] + 1) * q
            F = kw.get('F', 2 ** kw['J_fr'])
            if 2 ** kw['J_fr'] > n_in or n_in > 24:
                return False
            if F == 'global':
                return not kw.get('stride_fr')
            return 1 <= F <= min(n_in, 2 ** kw['J_fr']) and kw.get('stride_fr', 1) <= 2 ** int(math.log2(F))
        return True
    if d == '2d':
        return min(kw['shape']) >= 2 ** kw['J']
    return True


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('P02', tier, seed)
    n = 60 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f in ('numpy', 'torch', 'sklearn'):
            fams = []
            for d in fe.AVAILABLE[f]:
                if gen.chance(rng, .6):
                    fams += [(f, d, kw) for kw in family(rng, f, d, int(rng.integers(2, 5)))]
            if f != 'numpy' and gen.chance(rng, .4):
                fams += [('numpy', '1d', kw) for kw in family(rng, 'numpy', '1d', 2)]
            if fams:
                yield dict(kind=f, aff=fe.AFF[f], objs=fams, seed=int(rng.integers(1 << 30)), ops=30)
        if i % (12 if tier == 'quick' else 2) == 0:
            for f in ('tensorflow', 'jax'):
                d = gen.pick(rng, fe.AVAILABLE[f])
                yield dict(kind=f, aff=fe.AFF[f], objs=[(f, d, kw) for kw in family(rng, f, d, 3)], seed=int(rng.integers(1 << 30)), ops=14)


def inputs(d, kw, f, s):
    """Input number s of a configuration: (lead, dtype, array)."""
    lead = [[], [1], [3], [2, 2], [5]][s % 5]
    dt = 'float64' if f in ('numpy', 'sklearn') and s % 2 else 'float32'
    return gen.signal(gen.KINDS[s % len(gen.KINDS)], lead + gen.in_shape(d, kw), s, 1.0, dt)


def switches(f, d, kw):
    """Attribute changes the library supports on existing objects; the first entry is no change."""
    out = [None]
    if f in ('numpy', 'torch'):
        if d in ('1d', '2d', 'jtfs'):
            out.append(('out_type', 'list'))
        if d in ('1d', 'jtfs'):
            out.append(('out_type', 'dict'))
        if d == '3d':
            out.append(('integral_powers', [2.0, 0.5]))
        if d == 'jtfs':
            out.append(('format', 'time' if kw.get('format') == 'joint' else 'joint'))
        if d != 'jtfs' and kw.get('max_order', 2) == 2:
            out.append(('max_order', 1))
    return out


def entries(y):
    """Raw output -> comparable list."""
    from .. import fe
    return [({'path': repr(k)}, fe.to_np(v)) for k, v in y.items()] if isinstance(y, dict) else fe.norm(y)


def reference(f, d, kw, ss, sw):
    """Outputs of one configuration in this (pristine) process."""
    from .. import fe
    S = None
    out = {}
    for j, c in enumerate(sw):
        k = dict(kw, **{c[0]: c[1]}) if c else kw
        for s in ss:
            # one new object per output: no history at all within the reference
            S = fe.build(f, d, k)
            out[j, s] = entries(fe.call(f, d, S, inputs(d, kw, f, s)))
        if f in ('numpy', 'torch') and d in ('1d', 'jtfs'):
            out['meta', j] = fe.build(f, d, k).meta()
    return out


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, forked, core
    objs = case['objs']
    ss = [int(v) for v in gen.rng_for('ss', case['seed']).integers(0, 1000, 4)]
    fork = case['kind'] in ('numpy', 'torch', 'sklearn')
    if not fork and not case.get('inproc'):
        # keeps the forking workers free of libraries that do not survive a fork
        r = forked.fresh('P02', case)
        if r['status'] == 'harness':
            raise core.HarnessError(r['err'])
        merge(mon, r)
        return
    if case['kind'] == 'torch':
        import torch, kymatio.torch
        torch.set_num_threads(1)
    if case['kind'] == 'sklearn':
        import kymatio.sklearn
    if fork:
        import kymatio.numpy
    ref = []
    switch = [switches(f, d, kw) for f, d, kw in objs]
    for (f, d, kw), sw in zip(objs, switch):
        if fork:
            r = forked.run(lambda: reference(f, d, kw, ss, sw))
            if r[0] != 'ok':
                mon.violate('%s:%s:reference' % (f, d), 'a fresh object failed: %s' % (r[1:],))
                return
            ref.append(r[1])
        else:
            ref.append({(0, s): fe.norm(fe.build('numpy', d, kw)(inputs(d, kw, f, s).astype('float64'))) for s in ss})
    if fork:
        r = forked.run(lambda: history(case, ref, switch, ss))
        if r[0] != 'ok':
            mon.violate('history:exception:' + case['kind'], '%s: %s\n%s' % r[1:])
            return
        h = r[1]
    else:
        h = history(case, ref, switch, ss)
    merge(mon, h)
    mon.event('history')


def merge(mon, h):
    mon.events.update(h['events'])
    for k, v in h['margins'].items():
        mon.margins[k] = max(v, mon.margins.get(k, 0))
    for a, b in h['states'].items():
        mon.states[a] |= set(b)
    mon.violations += h['violations']
    mon.checks += h['checks']
    mon.nontrivial |= h['nontrivial']
    mon.sample = h['sample']


def history(case, ref, switch, ss):
    import gc
    import numpy as np
    from .. import fe, cmp, core
    mon = core.Monitor()
    rng = gen.rng_for('h', case['seed'])
    objs, live, log = case['objs'], [], []
    rid = case['kind'] in ('numpy', 'torch', 'sklearn')

    def new(i):
        f, d, kw = objs[i]
        live.append((i, fe.build(f, d, kw)))

    buffers, held = {}, []

    def recheck(h):
        # a result keeps its values whatever happens afterwards
        raw, i, j, s, key, at = h
        mon.event('held_result_judged')
        return cmp.identical(mon, entries(raw), ref[i][j, s], key + ':held', 'result of operation %d, now after %s' % (at, log[-12:]))

    def judge(i, S, s, j, what):
        f, d, kw = objs[i]
        x = inputs(d, kw, f, s)
        if rid and gen.chance(rng, .5):
            # one buffer, refilled by its owner between the calls
            x = buffers.setdefault((tuple(x.shape), str(x.dtype)), np.empty_like(x))
            x[...] = inputs(d, kw, f, s)
            if f == 'torch':
                x = buffers.setdefault(id(x), fe.to_fe('torch', x))
            mon.event('buffer_reused')
        raw = fe.call(f, d, S, x) if isinstance(x, np.ndarray) else S(x)
        y = entries(raw)
        mon.event('call_judged')
        key = '%s:%s' % (f, d)
        log.append('call %d input %d' % (i, s))
        ok = cmp.identical(mon, y, ref[i][j, s], key, '%s after %s' % (what, log[-12:])) if rid else \
            cmp.outputs(mon, d, kw, y, ref[i][j, s], float(np.abs(x).max()), key, detail='%s after %s' % (what, log[-12:]))
        mon.nontrivial |= any(np.any(v) for _, v in y)
        if rid and gen.chance(rng, .4):
            held.append((raw, i, j, s, key, len(log)))
        elif rid and gen.chance(rng, .5):
            # what the caller does to a result is the caller's business
            for v in (raw.values() if isinstance(raw, dict) else [p['coef'] for p in raw] if isinstance(raw, list) else [raw]):
                if not isinstance(v, np.ndarray) or v.flags.writeable:
                    v[...] = 7.
            mon.event('result_overwritten')
        return ok

    def judge_meta(i, S, j):
        from .. import watch
        f, d, kw = objs[i]
        m = S.meta()
        S.output_size(), S.output_size(detail=True)
        mon.event('metadata')
        if ('meta', j) in ref[i]:
            dd = watch.diff(*[{k: watch.fingerprint(v) for k, v in q.items()} for q in (ref[i]['meta', j], m)])
            mon.check(not dd, '%s:%s:meta' % (f, d), lambda: 'metadata after %s: %s' % (log[-12:], dd[:3]))
            for v in m.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = v[::-1] if gen.chance(rng, .5) else v[:1]
                elif isinstance(v, list):
                    v.reverse()

    for i in range(len(objs)):
        new(i)
    for step in range(case['ops']):
        op = gen.pick(rng, ['call', 'call', 'call', 'fail', 'new', 'del', 'meta', 'switch', 'badnew', 'attrs', 'noise'])
        i = int(rng.integers(len(live)))
        oi, S = live[i]
        f, d, kw = objs[oi]
        if held and gen.chance(rng, .3) and not recheck(held.pop(int(rng.integers(len(held)))) if len(held) > 8 else held[int(rng.integers(len(held)))]):
            break
        mon.state('bigram', [f, d, log[-1].split()[0] if log else '', op])
        if op == 'call':
            if not judge(oi, S, int(gen.pick(rng, ss)), 0, 'object of a history'):
                break
        elif op == 'fail':
            x = inputs(d, kw, f, ss[0])
            bad = [np.concatenate([x, x], axis=-1)[..., :x.shape[-1] + 1], x.astype(complex) if f == 'numpy' else x[..., :-1], None][int(rng.integers(3))]
            try:
                if bad is None:
                    S.scattering(None)
                else:
                    fe.call(f, d, S, bad) if f != 'sklearn' else S.predict(bad)
            except Exception:
                mon.event('failed_call')
                log.append('failed_call %d' % oi)
        elif op == 'new':
            new(int(rng.integers(len(objs))))
            log.append('construct %d' % live[-1][0])
            if not judge(live[-1][0], live[-1][1], int(gen.pick(rng, ss)), 0, 'new object in a history'):
                break
        elif op == 'del' and len(live) > 2:
            live.pop(i)
            del S
            gc.collect()
            mon.event('object_destroyed')
            log.append('destroy %d' % oi)
        elif op == 'meta' and d in ('1d', 'jtfs') and f not in ('sklearn',):
            judge_meta(oi, S, 0)
            log.append('meta %d' % oi)
        elif op == 'attrs':
            from .. import watch
            watch.public(S)
            repr(S), str(S)
            log.append('attrs %d' % oi)
        elif op == 'switch' and len(switch[oi]) > 1:
            j = int(rng.integers(1, len(switch[oi])))
            k, v = switch[oi][j]
            old = getattr(S, k)
            setattr(S, k, v)
            log.append('switch %d %s' % (oi, k))
            ok = judge(oi, S, int(gen.pick(rng, ss)), j, 'object switched to %s=%r' % (k, v))
            if d in ('1d', 'jtfs') and f != 'sklearn' and gen.chance(rng, .7):
                judge_meta(oi, S, j)
            setattr(S, k, old)
            if d in ('1d', 'jtfs') and f != 'sklearn' and gen.chance(rng, .3):
                judge_meta(oi, S, 0)
            mon.event('switch')
            if not ok:
                break
        elif op == 'badnew':
            if INVALID[d]:
                try:
                    T = fe.build(f, d, gen.pick(rng, INVALID[d]))
                except Exception:
                    mon.event('failed_construction')
                log.append('badnew %s' % d)
        elif op == 'noise':
            # use of the libraries between calls
            np.random.standard_normal(4)
            with np.errstate(all='ignore'):
                np.fft.fft(np.ones(8))
            log.append('noise')
    for oi, S in live:
        if mon.violations or not judge(oi, S, int(gen.pick(rng, ss)), 0, 'object at the end of a history'):
            break
    for h in held:
        if mon.violations or not recheck(h):
            break
    r = mon.result()
    r['sample'] = {'history': log[:30]}
    return r
