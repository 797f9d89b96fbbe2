"""Run a function in a forked child of this process and bring its result back."""
import os
import pickle
import select
import signal
import sys
import time


class Died(Exception):
    pass


def run(fn, timeout=120):
    r, w = os.pipe()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:  # carried to the parent
                import traceback
                out = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, protocol=4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b'', time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Died('no answer within %g s' % timeout)
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        raise Died('child ended with status %d' % st)


def fresh(prop, case, timeout=140):
    """Run one case in a new interpreter; the result of its monitor."""
    import json
    import subprocess
    r = subprocess.run([sys.executable, '-m', 'kymon.worker', prop], input=json.dumps(dict(case, inproc=True)) + '\n', stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=timeout)
    lines = r.stdout.splitlines()
    if len(lines) < 2:
        raise Died('fresh interpreter ended with status %s: %s' % (r.returncode, r.stderr[-1500:]))
    return json.loads(lines[1])
