"""Calls, failed calls, metadata queries and destroyed objects leave no memory behind."""
from .. import gen

TECHNIQUE = 'resource monitor: live bytes of the C heap (and live JAX arrays) and weak references around calls, failed calls, queries and object lifetimes'
NOTE = 'Sampled parameters and inputs, each operation repeated at sizes far above the noise of the allocator. The heap of the process is measured, so memory held by any layer (Python, NumPy, PyTorch, TensorFlow, JAX) counts. No proof.'
RULE = 'seeded random (frontend, transform, parameters); non-trivial = the heap was seen to grow by the results while they were held'
ASSUMPTIONS = ['glibc mallinfo2 counts the memory in use by all arenas', 'one operation of each kind and size is done before measuring, so that caches the libraries keep per size are warm', 'caches of bounded size smaller than a third of the input are not seen']
REQUIRED = {'call_measured': 180, 'failed_call_measured': 60, 'lifetime_measured': 100, 'gradient_measured': 12, 'input_released': 150, 'result_seen': 150, 'thread_measured': 40}
N = {'numpy': 10, 'torch': 6, 'sklearn': 3, 'tensorflow': 2, 'jax': 1, 'keras': 1}


def cases(tier, seed):
    from .. import fe
    rng = gen.rng_for('L01', tier, seed)
    n = 3 if tier == 'quick' else 10 ** 9
    for i in range(n):
        for f, d in gen.pairs():
            if f in ('jax', 'keras', 'tensorflow') and tier == 'quick' and i % 3:
                continue
            for k in range(N[f]):
                kw = gen.fe_cfg(f, d, rng, True, large=False)
                yield dict(kind=f + ':' + d, fe=f, dim=d, kw=kw, aff=fe.AFF[f], seed=int(rng.integers(1 << 30)))


def heap():
    """Bytes in use: C heap and, if JAX is loaded, its live arrays."""
    import ctypes
    import gc
    import sys
    gc.collect()
    lib = ctypes.CDLL(None)
    if not hasattr(heap, 'T'):
        names = 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()
        heap.T = type('mallinfo2', (ctypes.Structure,), {'_fields_': [(n, ctypes.c_size_t) for n in names]})
    lib.mallinfo2.restype = heap.T
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd


def threaded(fn):
    import threading
    err = []

    def go():
        try:
            fn()
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if err:
        raise err[0]


def run_case(case, mon):
    import gc
    import weakref
    import numpy as np
    from .. import fe
    f, d, kw = case['fe'], case['dim'], case['kw']
    rng = gen.rng_for('l', case['seed'])
    K = '%s:%s:' % (f, d)
    mon.state('config', [f, d, kw])
    S = fe.build(f, d, kw)
    sh = gen.in_shape(d, kw)
    dt = 'float64' if f in ('numpy', 'sklearn') else 'float32'
    one = int(np.prod(sh)) * np.dtype(dt).itemsize
    state = {}

    def data(n, bad=False):
        s = list(sh)
        if bad:
            s[-1] = s[-1] + 1 if d in ('2d', '3d') or f == 'sklearn' else s[-1]
        x = np.random.standard_normal([n] + s).astype(dt)
        if f == 'sklearn':
            x = x.reshape(n, -1)
        return x.astype(complex) if bad and d in ('1d', 'jtfs') and f != 'sklearn' else x

    def use(n, bad=False):
        x = data(n, bad)
        t = x if f == 'sklearn' else fe.to_fe(f, x)
        if not bad:
            # PyTorch shares the memory of the NumPy array
            state['ref'] = weakref.ref(t if f == 'jax' else x)
        return (S.predict if f == 'sklearn' else S)(t)

    def call():
        use(n)

    def small():
        use(1)

    def fail():
        try:
            use(n, True)
        except Exception:
            return
        state['accepted'] = True

    def grad():
        import torch
        x = torch.from_numpy(data(n)).requires_grad_()
        y = S(x)
        v = [p['coef'] for p in y] if isinstance(y, list) else list(y.values()) if isinstance(y, dict) else [y]
        sum(w.sum() for w in v).backward()

    def meta():
        S.meta(), S.output_size()

    def coefs(y):
        return fe.coefs([dict(coef=v) for v in y.values()] if isinstance(y, dict) else y)

    def measure(op, times, bound, key, what):
        """Growth of the heap over some repetitions of a warmed-up operation."""
        op()
        before = heap()
        for _ in range(times):
            op()
        grown = heap() - before
        limit = .3 * bound * times + 49152
        mon.margin(key, max(grown, 0) / limit)
        mon.check(grown < limit, K + key, lambda: '%d %s left %d bytes more in use (%d bytes of input each)' % (times, what, grown, bound))

    small()
    y = use(1)
    each = sum(v.nbytes for v in coefs(y))
    paths = max(len(coefs(y)), int(np.prod(coefs(y)[0].shape[1:-1]))) * (4 if d == 'jtfs' else 1)
    del y
    work = paths * int(np.prod(sh))
    if d == 'jtfs' and case['aff'] == 'tf':
        work, each = 6 * work, 3 * each
    n = max(2, min(4000, 250000 // one, 8000000 // each, max(8000000 // work, -(-60000 // one) if work < 200000 else 0)))
    size = n * one
    if size < 60000:
        mon.event('too_small')
        return
    call()
    # what is held while the results are held is seen by the monitor
    before = heap()
    y = use(n)
    held = heap() - before
    out = sum(v.nbytes for v in coefs(y))
    if held > .5 * out and f != 'jax':
        mon.event('result_seen')
        mon.nontrivial = True
    del y
    gc.collect()
    if f in ('numpy', 'sklearn', 'torch', 'jax'):
        mon.event('input_released')
        mon.check(state['ref']() is None, K + 'input', 'the input of a finished call is still alive after input and result were dropped')
    measure(call, 4, size, 'call', 'calls')
    mon.event('call_measured')
    # what only the latest call leaves behind
    a = heap()
    small()
    b = heap()
    mon.margin('latest', max(a - b, 0) / (.5 * size))
    mon.check(a - b < .5 * size, K + 'latest', lambda: '%d bytes were released by a later, smaller call (%d bytes of input)' % (a - b, size))
    if gen.chance(rng, .4):
        measure(lambda: threaded(call), 3, size, 'thread', 'calls in threads of their own')
        mon.event('thread_measured')
    if gen.chance(rng, .6) and f != 'keras':
        fail()
        if not state.get('accepted'):
            measure(fail, 4, size, 'failed_call', 'failed calls')
            mon.event('failed_call_measured')
    if f == 'torch' and n * work < 5e6 and gen.chance(rng, .7):
        measure(grad, 3, size, 'gradient', 'calls with gradients')
        mon.event('gradient_measured')
    if d in ('1d', 'jtfs') and f not in ('keras',) and gen.chance(rng, .5):
        measure(meta, 20, 8192, 'meta', 'metadata queries')
        mon.event('meta_measured')
    # objects
    if f == 'jax' and d == 'jtfs':
        return
    before = heap()
    T = fe.build(f, d, kw)
    bank = heap() - before

    def life():
        T = fe.build(f, d, kw)
        if gen.chance(rng, .5) or f == 'keras':
            x = data(1)
            (T.predict if f == 'sklearn' else T)(x if f == 'sklearn' else fe.to_fe(f, x))
        if d in ('1d', 'jtfs') and f != 'keras' and gen.chance(rng, .7):
            T.meta(), T.output_size(), T.output_size(True)
        if f != 'keras' and gen.chance(rng, .4):
            import copy
            import pickle
            copy.copy(T), copy.deepcopy(T), pickle.loads(pickle.dumps(T)), repr(T)
        if f == 'torch' and gen.chance(rng, .3):
            T.state_dict(), T.double(), T.float()
        if f == 'sklearn' and gen.chance(rng, .3):
            T.get_params(), T.fit(data(1)), T.set_params()
        state['obj'] = weakref.ref(T)
    del T
    life()
    measure(life, 6, max(bank, 120000 if case['aff'] in ('tf', 'jax') else 40000), 'lifetime', 'constructions and destructions')
    mon.event('lifetime_measured')
    gc.collect()
    mon.check(state['obj']() is None, K + 'object', 'an object is still alive after its last reference was dropped')
    mon.sample = {'fe': f, 'dim': d, 'kw': kw, 'input_bytes': size, 'result_bytes': out, 'bank_bytes': bank}
