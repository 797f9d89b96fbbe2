"""JTFS formats, output types, metadata and sizes describe one transform."""
from .. import gen

TECHNIQUE = 'structural monitor relating the observed outputs of all formats and output types to metadata, sizes and filters'
NOTE = 'Sampled parameters and inputs; for each, the four (format, out_type) outputs, the dict output, meta() and output_size() are observed and cross-checked path by path. No proof.'
RULE = 'seeded random (frontend, JTFS parameters, input); all formats and output types of each; non-trivial = output not all zero'
ASSUMPTIONS = ['one frequential row beyond n1_max (as fixed by the existing tests) belongs to the joint list format and has no counterpart in the time format',
               'numbering of the filters as in the filter banks exposed by the objects']
REQUIRED = {'object_judged': 150, 'path_related': 2000}
N = {'numpy': 40, 'torch': 6, 'tensorflow': 2, 'jax': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('O02', tier, seed)
    n = 24 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f in ['numpy', 'torch', 'tensorflow', 'jax']:
            if f == 'jax' and tier == 'quick' and i % 6:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, 'jtfs', rng, f != 'numpy')
                kw.pop('out_type', None), kw.pop('format', None)
                yield dict(kind=f, fe=f, kw=kw, aff=fe.AFF[f], lead=gen.lead(rng, 2, 2), sig=gen.sigspec(rng, [], amps=(1.,)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, refs, cmp
    f, kw = case['fe'], case['kw']
    x = gen.make(dict(case['sig'], shape=case['lead'] + [kw['shape']]), 'float32' if f != 'numpy' else 'float64')
    lead = tuple(case['lead'])
    r = len(lead)
    K = f + ':'
    mon.event('object_judged')
    mon.state('config', [f, kw])
    d = refs.CfgJTFS(**{('N' if k == 'shape' else k): v for k, v in kw.items()})
    local_fr, no_fr = d.mode_fr == 'local', not d.mode_fr
    objs, lists = {}, {}
    for fmt in ('time', 'joint'):
        objs[fmt] = S = fe.build(f, 'jtfs', dict(kw, format=fmt, out_type='list'))
        lists[fmt] = fe.norm(fe.call(f, 'jtfs', S, x))
    S = objs['joint']
    psi1, psi2, psi_fr = S.psi1_f, S.psi2_f, S.filters_fr[1]
    # ---- joint list: the paths and what they say of themselves
    jt, tm = lists['joint'], lists['time']
    mon.nontrivial = any(np.any(a) for _, a in jt)
    first = [i for i, p in enumerate(psi_fr) if p['xi'] >= 0]
    live = [n2 for n2, p in enumerate(psi2) if any(q['j'] < p['j'] for q in psi1)]
    want = [()] + [(i,) for i in first] + [(n2, i) for n2 in live for i in range(len(psi_fr))]
    if not mon.check([p['n'] for p, _ in jt] == want, K + 'joint:paths', lambda: '%s, expected %s' % ([p['n'] for p, _ in jt][:20], want[:20])):
        return
    n1 = {n2: [i for i, q in enumerate(psi1) if q['j'] < psi2[n2]['j']] for n2 in live}
    expect_time, rows_of = [((), 0, None, None)], {}
    for p, a in jt:
        n = p['n']
        mon.equal(p['order'], len(n), K + 'joint:order', str(n))
        if not n:
            mon.check(a.shape[:r] == lead and a.ndim == r + 1, K + 'joint:zeroth_shape', str(a.shape))
            continue
        q = psi_fr[n[-1]]
        spin = int(np.sign(q['xi']))
        top = len(psi1) if len(n) == 1 else len(n1[n[0]])
        if d.mode_fr == 'global':
            st = top
        elif local_fr:
            st = 2 ** min(d.lsf, max(q['j'], d.lsf))
        else:
            st = 2 ** q['j']
        mon.check(tuple(cmp.plain(p['n_fr'])) == (n[-1],), K + 'joint:n_fr', lambda: str(p))
        mon.check(tuple(cmp.plain(p['j_fr'])) == (q['j'],), K + 'joint:j_fr', lambda: '%s, filter has %s' % (p, q['j']))
        mon.check(int(p['spin']) == spin and not (len(n) == 1 and spin < 0), K + 'joint:spin', lambda: '%s, filter has %s' % (p, q['xi']))
        mon.check(tuple(p['j']) == ((-1,) if len(n) == 1 else (-1, psi2[n[0]]['j'])), K + 'joint:j', lambda: str(p))
        mon.equal((p['n1_max'], p['n1_stride']), (top, st), K + 'joint:n1', str(n))
        rows = list(range(0, top, st))
        rows_of[n] = rows
        mon.check(a.shape[:r] == lead and a.ndim == r + 2 and a.shape[r] in (len(rows), len(rows) + 1) and a.shape[r] == 1 + top // st or d.mode_fr == 'global' and a.shape[r] == 1,
                  K + 'joint:rows', lambda: 'path %s: shape %s for n1 in %s' % (n, a.shape, rows))
    # ---- time list = rows of the joint list
    want_t = [()]
    for order in (1, 2):
        w = [(v,) + n for n, rows in rows_of.items() if len(n) == order for v in rows]
        want_t += sorted(w)
    if mon.check([p['n'] for p, _ in tm] == want_t, K + 'time:paths', lambda: '%s, expected %s' % ([p['n'] for p, _ in tm][:20], want_t[:20])):
        by = {p['n']: (p, a) for p, a in jt}
        for p, a in tm:
            n = p['n']
            mon.event('path_related')
            pj, aj = by[n[1:]] if n else by[()]
            if n:
                aj = np.take(aj, rows_of[n[1:]].index(n[0]), axis=r)
                for k in ('j', 'n_fr', 'j_fr', 'spin', 'order'):
                    mon.check(cmp.plain(p[k]) == cmp.plain(pj[k]), K + 'time:' + k, lambda: '%s: %s, joint has %s' % (n, p[k], pj[k]))
            if not mon.same(a, aj, K + 'time:value', 'path %s' % (n,)):
                break
    # ---- arrays and dicts
    for fmt in ('time', 'joint'):
        lst = lists[fmt]
        keys = [p['n'] for p, _ in lst]
        Sd = fe.build(f, 'jtfs', dict(kw, format=fmt, out_type='dict'))
        raw = fe.call(f, 'jtfs', Sd, x)
        mon.event('dict_judged')
        if mon.check(set(raw) == set(keys) and len(raw) == len(keys), K + 'dict:keys', lambda: str(list(raw)[:20])):
            for p, a in lst:
                mon.same(fe.to_np(raw[p['n']]), a, K + 'dict:value', '%s %s' % (fmt, p['n']))
        objs2 = [(Sd, keys)]
        if kw.get('T') != 0 and not (fmt == 'joint' and no_fr):
            Sa = fe.build(f, 'jtfs', dict(kw, format=fmt, out_type='array'))
            arr = fe.norm(fe.call(f, 'jtfs', Sa, x))[0][1]
            mon.event('array_judged')
            if fmt == 'time':
                mon.same(arr, np.stack([a for _, a in lst], axis=r), K + 'array:time', 'array vs stacked list')
                objs2.append((Sa, keys))
            else:
                objs2.append((Sa, keys[1:]))
                if mon.check(arr.ndim == r + 3 and arr.shape[:r + 1] == lead + (len(lst) - 1,), K + 'array:joint_shape', lambda: '%s for %d paths' % (arr.shape, len(lst) - 1)):
                    for i, (p, a) in enumerate(lst[1:]):
                        s = np.take(arr, i, axis=r)
                        if not mon.check(s.shape[r] >= a.shape[r] and s.shape[r + 1] == a.shape[r + 1], K + 'array:joint_rows', lambda: '%s vs %s' % (s.shape, a.shape)):
                            break
                        if not mon.same(np.take(s, range(a.shape[r]), axis=r), a, K + 'array:joint', 'path %s' % (p['n'],)):
                            break
        objs2.append((objs[fmt], keys))
        for So, ks in objs2:
            meta(mon, So, fmt, ks, psi1, psi2, psi_fr, rows_of, K)
    # ---- an object whose format and output type are changed is the object built that way
    if not mon.violations:
        for fmt, other in (('time', 'joint'), ('joint', 'time')):
            So = objs[fmt]
            So.format = other
            mon.event('format_switched')
            switched(mon, f, So, x, other, lists[other], psi1, psi2, psi_fr, rows_of, K)
            So.out_type = 'dict'
            raw = fe.call(f, 'jtfs', So, x)
            if mon.check(set(raw) == {p['n'] for p, _ in lists[other]}, K + 'switch:dict:keys', lambda: str(list(raw)[:20])):
                for p, a in lists[other]:
                    mon.same(fe.to_np(raw[p['n']]), a, K + 'switch:dict:value', '%s %s' % (other, p['n']))
            So.format, So.out_type = fmt, 'list'
            switched(mon, f, So, x, fmt, lists[fmt], psi1, psi2, psi_fr, rows_of, K)
    mon.sample = {'fe': f, 'kw': kw, 'paths': len(tm)}


def switched(mon, f, S, x, fmt, lst, psi1, psi2, psi_fr, rows_of, K):
    from .. import fe
    keys = [p['n'] for p, _ in lst]
    meta(mon, S, fmt, keys, psi1, psi2, psi_fr, rows_of, K + 'switch:')
    y = fe.norm(fe.call(f, 'jtfs', S, x))
    if mon.check([p['n'] for p, _ in y] == keys, K + 'switch:paths', lambda: '%s, expected %s' % ([p['n'] for p, _ in y][:20], keys[:20])):
        for (p, a), (_, b) in zip(y, lst):
            if not mon.same(a, b, K + 'switch:value', '%s %s' % (fmt, p['n'])):
                break


def eq(a, b):
    return a == b or (a != a and b != b)


def meta(mon, S, fmt, keys, psi1, psi2, psi_fr, rows_of, K):
    m = S.meta()
    mon.event('meta_judged')
    K = K + 'meta:%s:' % fmt
    got = [tuple(int(v) for v in k) for k in m['key']]
    if not mon.check(got == keys, K + 'key', lambda: '%s..., expected %s...' % (got[:8], keys[:8])):
        return
    mon.check(len(set(got)) == len(got), K + 'unique', '')
    nan = float('nan')
    P = len(keys)
    for name in ('n', 'n_fr', 'order', 'xi', 'sigma', 'j', 'xi_fr', 'sigma_fr', 'j_fr', 'spin'):
        if not mon.check(len(m[name]) == P, K + name + ':length', lambda: '%d for %d paths' % (len(m[name]), P)):
            return
    for i, k in enumerate(keys):
        if fmt == 'time':
            order = max(len(k) - 1, 0)
            v1 = k[0] if k else nan
            v2 = k[1] if order == 2 else nan
        else:
            order = len(k)
            v1 = tuple(rows_of[k]) if k else nan
            v2 = k[0] if order == 2 else nan
        nf = k[-1] if k else nan
        mon.equal(int(m['order'][i]), order, K + 'order', str(k))
        g1, g2 = m['n'][i]
        g1 = tuple(g1) if isinstance(g1, (range, tuple, list)) else g1
        mon.check(eq(g1, v1) and eq(g2, v2), K + 'n', lambda: 'path %s: %s' % (k, m['n'][i]))
        mon.check(eq(float(m['n_fr'][i]), nf), K + 'n_fr', lambda: 'path %s: %s' % (k, m['n_fr'][i]))
        q = psi_fr[k[-1]] if k else None
        for name in ('xi', 'sigma', 'j'):
            w1 = psi1[v1][name] if fmt == 'time' and k else nan
            w2 = psi2[v2][name] if order == 2 else nan
            t = m[name][i]
            mon.check(eq(float(t[0]), w1) and eq(float(t[1]), w2), K + name, lambda: 'path %s: %s, filters %s %s' % (k, t, w1, w2))
            wf = q[name] if q else nan
            mon.check(eq(float(m[name + '_fr'][i]), wf), K + name + '_fr', lambda: 'path %s: %s, filter %s' % (k, m[name + '_fr'][i], wf))
        s = float((q['xi'] > 0) - (q['xi'] < 0)) if q else nan
        mon.check(eq(float(m['spin'][i]), s) and not (order == 1 and s < 0), K + 'spin', lambda: 'path %s: %s' % (k, m['spin'][i]))
        if mon.violations:
            return
    orders = [int(o) for o in m['order']]
    mon.equal(S.output_size(), P, K + 'output_size', 'output_size()')
    det = tuple(S.output_size(detail=True))
    mon.equal(det, tuple(orders.count(o) for o in sorted(set(orders))), K + 'output_size_detail', 'output_size(detail=True)')
