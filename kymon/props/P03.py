"""Concurrent calls, constructions and metadata queries."""
from .. import gen

TECHNIQUE = 'schedule-controlled race monitor: seeded line- and bytecode-level interleavings of real threads, plus free-running stress, judged against sequential results'
NOTE = 'Random, round-robin and priority (PCT) schedules with switches at the executed lines or bytecodes of the code under test; every concurrent result is compared bit for bit with the sequential one. Sampled schedules, no proof.'
RULE = 'seeded random (frontend, transforms, thread roles, schedule policy); non-trivial = at least two threads interleaved and some output not zero'
ASSUMPTIONS = ['CPU backends are deterministic with one intra-op thread', 'scheduling points are lines/bytecodes of /repo/kymatio; native code is not preempted (except in the free-running part)']
REQUIRED = {'thread_result': 600, 'context_switch': 5000, 'schedule': 150, 'free_run': 40}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('P03', tier, seed)
    n = 90 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f in ('numpy', 'torch', 'sklearn') + (('jax',) if i % (25 if tier == 'quick' else 6) == 0 else ()):
            d = gen.pick(rng, fe.AVAILABLE[f])
            kws = []
            while len(kws) < 2:
                kw = gen.fe_cfg(f, d, rng, True)
                if d in ('1d', 'jtfs') and gen.cost1d(kw) > (40 if d == '1d' else 16):
                    continue
                if d == 'jtfs' and kw['shape'] > 64:
                    continue
                kws.append(kw)
            yield dict(kind=f + ':' + d, aff=fe.AFF[f], fe=f, dim=d, kws=kws, seed=int(rng.integers(1 << 30)),
                       roles=[gen.pick(rng, ['same', 'same', 'other', 'construct', 'construct_other', 'meta']) for _ in range(int(rng.integers(2, 5)))],
                       policy=gen.pick(rng, ['random', 'random', 'round', 'pct']), p=float(gen.pick(rng, [.5, .2, .05, .01])), opcodes=bool(gen.chance(rng, .2)))


def run_case(case, mon):
    import numpy as np
    from .. import fe, cmp, core, sched
    f, d, kws = case['fe'], case['dim'], case['kws']
    if f == 'torch':
        import torch
        torch.set_num_threads(1)
    rng = gen.rng_for('s', case['seed'])
    dts = ['float64', 'float32'] if f in ('numpy', 'sklearn') else ['float32']
    roles = list(case['roles'])
    if sum(r in ('same', 'other') for r in roles) == 0:
        roles[0] = 'same'
    K = '%s:%s:' % (f, d)

    def inp(kw, s):
        lead = [[], [1], [2], [2, 2], [3]][s % 5]
        return gen.signal(gen.KINDS[s % len(gen.KINDS)], lead + gen.in_shape(d, kw), s, 1.0, dts[s % len(dts)])
    seeds = [[int(v) for v in rng.integers(0, 1000, 2)] for _ in roles]
    has_meta = d in ('1d', 'jtfs') and f != 'sklearn'

    def desc(S):
        if not has_meta:
            return repr(S.J)
        m = S.meta()
        return repr({k: cmp.plain(m[k]) for k in sorted(m)}) + repr((S.output_size(), S.output_size(detail=True)))

    def work(role, S, ss):
        kw = kws[1] if role in ('other', 'construct_other') else kws[0]
        if role.startswith('construct'):
            return [fe.norm(fe.call(f, d, fe.build(f, d, kw), inp(kw, ss[0])))]
        if role == 'meta':
            return [desc(S), desc(S)]
        return [fe.norm(fe.call(f, d, S, inp(kw, s))) for s in ss]
    # sequential truth, from objects of their own
    truth = [work(r, fe.build(f, d, kws[1] if r == 'other' else kws[0]), ss) for r, ss in zip(roles, seeds)]
    mon.nontrivial |= any(np.any(a) for t in truth for y in t if not isinstance(y, str) for _, a in y)

    def judge(results, how, repeats=None):
        for i, (r, t) in enumerate(zip(results, truth)):
            mon.event('thread_result')
            if r is None:
                mon.violate(K + 'hang', '%s: thread %d (%s) never finished; roles %s' % (how, i, roles[i], roles))
                continue
            if not mon.check(r[0] == 'ok', K + 'exception:' + roles[i].split('_')[0], lambda: '%s: thread %d of roles %s: %s' % (how, i, roles, r[1])):
                continue
            for got in (r[1] if repeats else [r[1]]):
                for g, w in zip(got, t):
                    if isinstance(w, str):
                        ok = mon.check(g == w, K + 'meta', '%s: metadata differ' % how)
                    else:
                        ok = cmp.identical(mon, g, w, K + 'result', '%s: thread %d of roles %s' % (how, i, roles))
                    if not ok:
                        return
    S0, S1 = fe.build(f, d, kws[0]), fe.build(f, d, kws[1])
    fns = [lambda r=r, ss=ss: work(r, S1 if r == 'other' else S0, ss) for r, ss in zip(roles, seeds)]
    sc = sched.Scheduler(fns, rng, case['policy'], case['p'], case['opcodes'])
    res = sc.run()
    mon.event('schedule')
    mon.event('scheduling_point', sc.points)
    mon.event('context_switch', len(sc.switches))
    mon.event('stall', sc.stalls)
    mon.state('interleaving', [core.sig(sc.switches)])
    for s in sc.switches[:300]:
        mon.state('switch_site', [f, d, s[2]])
    judge(res, '%s schedule p=%g' % (case['policy'], case['p']))
    if not mon.violations and f != 'jax':
        S0, S1 = fe.build(f, d, kws[0]), fe.build(f, d, kws[1])
        mon.event('free_run')
        judge(sched.free(fns * 2, 2)[:len(fns)], 'free-running threads', 2)
    mon.sample = {'roles': roles, 'policy': case['policy'], 'points': sc.points, 'switches': len(sc.switches), 'stalls': sc.stalls}
