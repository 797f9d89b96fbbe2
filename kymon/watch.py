"""Process-level monitors: audit events and snapshots of global state."""
import os
import random
import sys
import threading
import warnings

_on = [None]
_installed = [False]
WATCHED = ('open', 'os.mkdir', 'os.rmdir', 'os.remove', 'os.rename', 'os.link', 'os.symlink', 'os.chmod', 'os.truncate', 'os.chdir', 'os.putenv', 'os.unsetenv',
           'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn', 'os.system', 'os.kill', 'subprocess.Popen', 'socket.__new__', 'socket.connect', 'socket.bind',
           'shutil.rmtree', 'shutil.copyfile', 'shutil.move', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'mmap.__new__', 'urllib.Request', 'ctypes.dlopen', 'webbrowser.open')
CODE = ('.py', '.pyc', '.so', '.pyi')


def _hook(event, args):
    rec = _on[0]
    if rec is None or event not in WATCHED or threading.get_ident() != rec['thread']:
        return
    if event == 'open':
        path = args[0]
        if isinstance(path, bytes):
            path = path.decode('utf8', 'replace')
        mode = args[1] or ''
        reading = isinstance(mode, str) and not set(mode) & set('wax+')
        if isinstance(path, str) and reading and (path.endswith(CODE) or path.startswith(('/proc/', '/sys/', '/dev/'))):
            return
    if event == 'ctypes.dlopen':
        return
    rec['events'].append('%s %s' % (event, str(args)[:200]))


class Audit:
    """with Audit() as a: ...; a.events lists what the code in between asked of the system."""

    def __enter__(self):
        if not _installed[0]:
            sys.addaudithook(_hook)
            _installed[0] = True
        self.rec = {'thread': threading.get_ident(), 'events': []}
        _on[0] = self.rec
        return self

    def __exit__(self, *exc):
        _on[0] = None
        self.events = self.rec['events']


def snapshot():
    import numpy as np
    s = {
        'numpy random state': repr(np.random.get_state(legacy=True)[1:]) + repr(np.random.get_state()[0]) + np.random.get_state()[1].tobytes().hex()[:64],
        'numpy error mode': repr(np.geterr()), 'numpy error callback': repr(np.geterrcall()), 'numpy print options': repr(np.get_printoptions()),
        'random state': hash(random.getstate()),
        'warning filters': repr(warnings.filters), 'environment': dict(os.environ), 'working directory': os.getcwd(), 'module path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(), 'python threads': threading.active_count(), 'stdout': id(sys.stdout), 'stderr': id(sys.stderr),
        'open files': len(os.listdir('/proc/self/fd')), 'directory contents': sorted(os.listdir('.')), 'umask': _umask(),
        'float format': repr(1 / 3), 'excepthook': id(sys.excepthook), 'trace': (sys.gettrace(), sys.getprofile()),
    }
    s.update(interpreter())
    if 'torch' in sys.modules:
        import torch
        s.update({'torch default dtype': str(torch.get_default_dtype()), 'torch grad mode': torch.is_grad_enabled(), 'torch inference mode': torch.is_inference_mode_enabled(),
                  'torch random state': torch.get_rng_state().numpy().tobytes(), 'torch threads': torch.get_num_threads(),
                  'torch anomaly mode': torch.is_anomaly_enabled(), 'torch determinism': torch.are_deterministic_algorithms_enabled(),
                  'torch interop threads': torch.get_num_interop_threads(), 'torch matmul precision': torch.get_float32_matmul_precision(),
                  'torch default device': str(torch.get_default_device()), 'torch autocast': (torch.is_autocast_enabled(), torch.is_autocast_enabled('cpu')),
                  'torch denormals': bool((torch.tensor([1e-40]) * torch.tensor([1.0])).item() != 0), 'torch mkldnn': torch.backends.mkldnn.flags is None or torch._C._get_mkldnn_enabled(),
                  'torch print options': repr(vars(torch._tensor_str.PRINT_OPTS)), 'torch warn always': torch.is_warn_always_enabled()})
    if 'jax' in sys.modules:
        import jax
        s['jax config'] = repr(sorted((k, repr(v)) for k, v in jax.config.values.items()))
    if 'keras' in sys.modules:
        import keras
        s['keras floatx'] = keras.config.floatx()
        s['keras image format'] = keras.config.image_data_format()
        s['keras policy'] = repr(keras.config.dtype_policy())
        s['keras epsilon'] = keras.config.epsilon()
    if 'sklearn' in sys.modules:
        import sklearn
        s['sklearn config'] = repr(sorted(sklearn.get_config().items()))
    if 'tensorflow' in sys.modules:
        import tensorflow as tf
        s['tf eager'] = tf.executing_eagerly()
        s['tf functions run eagerly'] = tf.config.functions_run_eagerly()
        s['tf placement'] = (tf.config.get_soft_device_placement(), tf.config.optimizer.get_jit(), tf.config.threading.get_inter_op_parallelism_threads(), tf.config.threading.get_intra_op_parallelism_threads())
        s['tf log level'] = tf.get_logger().level
        from tensorflow.python.eager import context
        s['tf global seed'] = context.global_seed()
    return s


def interpreter():
    """State of the interpreter and of the process that nothing but the program itself may change."""
    import builtins
    import decimal
    import gc
    import locale
    import logging
    import resource
    import signal
    import socket
    import numpy as np
    import scipy.fft
    root = logging.getLogger()
    ctx = decimal.getcontext()
    s = {
        'logging': (root.level, root.disabled, root.manager.disable, [repr(type(h)) for h in root.handlers], [repr(f) for f in root.filters], logging.raiseExceptions, logging.Logger.manager.loggerClass),
        'kymatio loggers': sorted((n, l.level, l.disabled, l.propagate, len(l.handlers)) for n, l in root.manager.loggerDict.items() if hasattr(l, 'handlers') and n.startswith('kymatio') and (l.level, l.disabled, l.propagate, len(l.handlers)) != (0, False, True, 0)),
        'warnings machinery': (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn)),
        'locale': locale.setlocale(locale.LC_ALL), 'signal handlers': [repr(signal.getsignal(n)) for n in range(1, 32)], 'timers': signal.getitimer(signal.ITIMER_REAL)[1],
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), 'garbage callbacks': len(gc.callbacks),
        'switch interval': sys.getswitchinterval(), 'thread hooks': (id(threading.excepthook), threading.stack_size()),
        'decimal context': (ctx.prec, ctx.rounding), 'import hooks': ([id(h) for h in sys.meta_path], len(sys.path_hooks)),
        'integer digits': sys.get_int_max_str_digits(), 'flush denormals': bool((np.array([5e-324]) * np.array([1.0]))[0] != 0),
        'rounding': repr([float(np.array([1.0])[0] + np.array([1e-16])[0]), float(np.array([1.0])[0] - np.array([1e-17])[0])]),
        'fft workers': scipy.fft.get_workers(), 'socket timeout': socket.getdefaulttimeout(), 'limits': [resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_DATA, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE)],
        'priority': os.getpriority(os.PRIO_PROCESS, 0), 'affinity': sorted(os.sched_getaffinity(0)), 'ids': (os.getuid(), os.geteuid(), os.getgid()),
        'print': id(builtins.print), 'open': id(builtins.open), 'numpy buffer size': np.getbufsize(), 'display hook': id(sys.displayhook), 'tracebacks': getattr(sys, 'tracebacklimit', None),
        'numpy functions': [id(getattr(np, k)) for k in ('abs', 'sum', 'stack', 'pad', 'fft', 'concatenate')], 'fft functions': [id(getattr(scipy.fft, k)) for k in ('fft', 'ifft', 'fftn', 'ifftn', 'fft2', 'ifft2')],
    }
    return s


STICKY = ('numpy error mode', 'numpy error callback', 'numpy print options', 'numpy random state', 'random state', 'environment', 'working directory', 'recursion limit', 'stdout', 'stderr',
          'umask', 'float format', 'excepthook', 'trace', 'directory contents', 'logging', 'kymatio loggers', 'warnings machinery', 'locale', 'signal handlers', 'garbage collector', 'switch interval',
          'thread hooks', 'decimal context', 'integer digits', 'flush denormals', 'rounding', 'fft workers', 'socket timeout', 'limits', 'priority', 'affinity', 'ids', 'print', 'open',
          'numpy buffer size', 'display hook', 'tracebacks', 'numpy functions', 'fft functions', 'torch default dtype', 'torch grad mode', 'torch inference mode', 'torch random state', 'torch threads',
          'torch anomaly mode', 'torch determinism', 'torch interop threads', 'torch matmul precision', 'torch default device', 'torch autocast', 'torch denormals', 'torch mkldnn', 'torch print options',
          'torch warn always', 'jax config', 'keras floatx', 'keras image format', 'keras policy', 'keras epsilon', 'keras seed', 'tf eager', 'tf functions run eagerly', 'tf placement', 'tf log level',
          'tf global seed', 'sklearn config')


def sticky():
    """The part of the snapshot which even the first use of a freshly imported frontend may not change."""
    s = snapshot()
    return {k: s[k] for k in STICKY if k in s}


def scramble(seed):
    """Puts the process state the code must leave alone into an unusual configuration."""
    import numpy as np
    r = random.Random(seed)
    warnings.filters[:] = [('ignore', None, UserWarning, None, 900000 + r.randrange(1000)), ('ignore', None, Warning, None, 0)]
    if hasattr(warnings, '_filters_mutated'):
        warnings._filters_mutated()
    np.seterr(**{k: r.choice(['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')})
    np.random.seed(seed % 2 ** 32)
    np.random.standard_normal(r.randrange(1, 9))
    random.seed(seed)
    np.set_printoptions(precision=r.randrange(3, 12))
    os.environ['KYMON_MARK'] = str(seed)
    if 'torch' in sys.modules:
        import torch
        torch.manual_seed(seed)


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def diff(a, b):
    return ['%s: %s -> %s' % (k, str(a.get(k))[:150], str(b.get(k))[:150]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def fingerprint(v, depth=0, seen=None):
    """Value of an attribute (arrays of every framework by content), or None if it has no comparable value."""
    import hashlib
    import numpy as np
    if depth > 8:
        return '...'
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, np.generic)):
        return repr(v.item() if isinstance(v, np.generic) else v)
    if isinstance(v, (list, tuple, range)):
        return '[' + ','.join(str(fingerprint(w, depth + 1)) for w in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%r:%s' % (k, fingerprint(v[k], depth + 1)) for k in sorted(v, key=repr)) + '}'
    a = None
    if isinstance(v, np.ndarray):
        a = v
    elif hasattr(v, 'detach') and hasattr(v, 'numpy'):
        a = v.detach().cpu().numpy()
    elif type(v).__module__.split('.')[0] in ('jaxlib', 'jax', 'tensorflow') and hasattr(v, 'shape'):
        try:
            a = np.asarray(v)
        except Exception:
            return None
    if a is not None:
        if a.dtype == object:
            return fingerprint(a.tolist(), depth + 1)
        return '%s%s' % (tuple(d for d in a.shape if d != 1), hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:12])
    return None


def public(S):
    """Comparable public attributes of an object (including the filters)."""
    out = {}
    for k in dir(S):
        if k.startswith('_') or k in ('training', 'losses', 'metrics', 'updates', 'input', 'output', 'name', 'path'):
            continue
        try:
            v = getattr(S, k)
        except Exception:
            continue
        if callable(v):
            continue
        p = fingerprint(v)
        if p is not None:
            out[k] = p
    if hasattr(S, 'state_dict'):
        for k, v in S.state_dict().items():
            out['state_dict:' + k] = fingerprint(v)
    return out
