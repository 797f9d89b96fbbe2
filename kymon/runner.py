"""Drives one property: generates cases, shards them over worker processes, judges and reports.

Exit 0: held on everything explored.  1: violation.  2: inconclusive or error of the check.
"""
import argparse
import importlib
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

from . import core

PY = os.environ.get('KYMON_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
EVID = os.path.join(core.VERIF, 'evidence')


def child_env():
    env = dict(os.environ)
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'TF_NUM_INTRAOP_THREADS', 'TF_NUM_INTEROP_THREADS'):
        env[k] = '1'
    env.update(KERAS_BACKEND='tensorflow', JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', TF_ENABLE_ONEDNN_OPTS='0',
               XLA_FLAGS=env.get('XLA_FLAGS', '') + ' --xla_cpu_multi_thread_eigen=false',
               PYTHONPATH=os.pathsep.join([core.REPO, core.VERIF]))
    env.pop('KYMATIO_BACKEND', None)
    return env


class Worker:
    def __init__(self, prop):
        self.prop = prop
        self.errf = None
        self.start()

    def start(self):
        import tempfile
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PY, '-m', 'kymon.worker', self.prop], cwd=core.VERIF, env=child_env(),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, text=True, bufsize=1)
        r = self._read(300)
        if not r or not r.get('ready'):
            raise RuntimeError('worker for %s did not start:\n%s' % (self.prop, self.stderr()))

    def stderr(self):
        self.errf.seek(0)
        return self.errf.read()[-3000:].decode('utf8', 'replace')

    def _read(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None
        line = self.p.stdout.readline()
        return json.loads(line) if line else {}

    def run(self, case, timeout):
        """(result, problem) with problem None, 'died' or 'hang'."""
        try:
            self.p.stdin.write(json.dumps(case) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = self._read(timeout)
        if r is None:
            prob = 'hang'
        elif not r:
            prob = 'died'
        else:
            return r, None
        rc = None
        try:
            self.p.kill()
            rc = self.p.wait()
        except Exception:
            pass
        tail = self.stderr()
        self.start()
        return {'tail': tail, 'rc': rc}, prob

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Agg:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = {}
        self.states = {}
        self.margins = {}
        self.checks = self.cases = self.skipped = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.harness = []
        self.slow = []
        self.kinds = {}

    def add(self, case, r):
        with self.lock:
            if r['status'] == 'skip':
                self.skipped += 1
                return
            self.cases += 1
            self.checks += r['checks']
            self.kinds[case.get('kind', '-')] = self.kinds.get(case.get('kind', '-'), 0) + 1
            for k, v in r['events'].items():
                self.events[k] = self.events.get(k, 0) + v
            for k, v in r.get('margins', {}).items():
                self.margins[k] = max(v, self.margins.get(k, 0))
            for k, v in r['states'].items():
                self.states.setdefault(k, set()).update(v)
            if r['status'] == 'harness':
                self.harness.append((case, r['err']))
            if r['nontrivial'] and r['checks']:
                self.nontrivial.add(core.sig({k: v for k, v in case.items() if k != 'id'}))
            if r['sample'] is not None or len(self.samples) < 4:
                if len(self.samples) < 8:
                    self.samples.append({'case': case, 'observed': r['sample'] or {'checks': r['checks'], 'events': r['events']}})
            self.slow.append((round(r['t'], 2), case.get('kind'), case.get('id')))
            self.slow.sort(key=lambda s: -s[0])
            del self.slow[5:]
            for v in r['violations']:
                self.violations.append((case, v))


def load_known():
    known = []
    p = os.path.join(core.VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                known.append(json.loads(l))
    return known


def is_known(known, prop, case, v):
    for k in known:
        if k['property'] == prop and k['key'] == v['key'] and all(case.get(a) == b for a, b in k.get('case', {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('KYMON_JOBS', '0')) or min(8, os.cpu_count() or 4))
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--kind', default=None, help='only cases of this kind')
    ap.add_argument('--stop-first', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module('kymon.props.' + a.prop)
    pid = a.prop
    budget = a.budget or float(os.environ.get('KYMON_BUDGET', 0)) or (480 if a.tier == 'quick' else 660)
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 150)

    if a.replay:
        cases = [json.load(open(a.replay))['case']]
        a.jobs = 1
    else:
        cases = mod.cases(a.tier, a.seed)
    if a.kind:
        cases = (c for c in cases if c.get('kind') == a.kind)

    agg = Agg()
    if hasattr(mod, 'static_checks') and not a.replay:
        pass

    # dispatch: iterate lazily; cases with an 'aff' field are routed to workers that already loaded that library
    it = iter(cases)
    buf = {}
    done_gen = [False]
    lock = threading.Lock()
    counter = [0]
    deadline = t0 + budget
    truncated = [False]

    def refill():
        n = 0
        for c in it:
            counter[0] += 1
            c.setdefault('id', counter[0])
            buf.setdefault(c.get('aff', ''), []).append(c)
            n += 1
            if n >= 200:
                return
        done_gen[0] = True

    def next_case(last):
        with lock:
            if time.time() > deadline:
                truncated[0] = truncated[0] or any(buf.values()) or not done_gen[0]
                return None
            if a.stop_first and agg.violations:
                return None
            if not done_gen[0] and sum(map(len, buf.values())) < 100:
                refill()
            ks = [k for k in buf if buf[k]]
            if not ks:
                return None
            # keep affinity; else take the longest queue not much loaded
            if last in ks:
                k = last
            else:
                k = max(ks, key=lambda q: len(buf[q]) / (1 + loaded.get(q, 0)))
                loaded[k] = loaded.get(k, 0) + 1
                if last is not None and last in loaded:
                    loaded[last] -= 1
            return buf[k].pop(0)
    loaded = {}
    errors = []

    def loop():
        w = None
        try:
            w = Worker(pid)
            last = None
            while True:
                c = next_case(last)
                if c is None:
                    break
                last = c.get('aff', '')
                r, prob = w.run(c, case_timeout)
                if prob:
                    r2, prob2 = w.run(c, case_timeout * 1.5)
                    if prob2:
                        agg.add(c, {'status': 'ok', 'checks': 1, 'events': {'worker_' + prob2: 1}, 'states': {}, 'nontrivial': False,
                                    'sample': None, 't': case_timeout,
                                    'violations': [{'key': '%s:%s' % (prob2, c.get('kind')),
                                                    'detail': 'the process running the case %s twice (rc %s)\n%s' % (
                                                        'did not answer' if prob2 == 'hang' else 'died', r2.get('rc'), r2.get('tail'))}]})
                        continue
                    r = r2
                agg.add(c, r)
        except Exception as e:
            errors.append(repr(e)[:3000])
        finally:
            if w:
                w.stop()

    ths = [threading.Thread(target=loop) for _ in range(a.jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    known = load_known()
    fresh, seen_known = [], {}
    for case, v in agg.violations:
        k = is_known(known, pid, case, v)
        if k:
            seen_known.setdefault(k['id'], (k, case, v))
        else:
            fresh.append((case, v))

    wall = time.time() - t0
    inconclusive = []
    if errors:
        inconclusive.append('worker errors: ' + '; '.join(errors[:2]))
    if agg.harness:
        inconclusive.append('%d harness errors, first: %s' % (len(agg.harness), agg.harness[0][1]))
    if not a.replay and not a.kind:
        for k, n in getattr(mod, 'REQUIRED', {}).items():
            if truncated[0] and a.tier == 'quick':
                # a slow machine: the evidence says so, and the minimum is in proportion
                n = min(n, 1)
            if agg.events.get(k, 0) < n:
                inconclusive.append('only %d events of kind %s observed (need %d)' % (agg.events.get(k, 0), k, n))
        if not agg.nontrivial:
            inconclusive.append('no non-trivial case was judged')

    if not a.replay:
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': agg.cases,
                'distinct_nontrivial': len(agg.nontrivial),
                'rule': mod.RULE,
                'oracle_checks': agg.checks,
                'events_observed': dict(sorted(agg.events.items())),
                'distinct_states_observed': {k: len(v) for k, v in sorted(agg.states.items())},
                'largest_error_over_tolerance': {k: float('%.3g' % v) for k, v in sorted(agg.margins.items())},
                'cases_by_kind': agg.kinds,
                'cases_outside_domain': agg.skipped,
                'stopped_at_time_budget': truncated[0],
                'samples': agg.samples,
                'slowest_cases': agg.slow,
                'inconclusive': inconclusive,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 1),
            'violations': len(fresh),
        }
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    for kid, (k, case, v) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for m in inconclusive:
        print('INCONCLUSIVE property=%s %s' % (pid, m), file=sys.stderr)
    if fresh:
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        keys = []
        for case, v in fresh:
            if v['key'] in keys:
                continue
            keys.append(v['key'])
            if len(keys) > 8:
                break
            path = os.path.join(EVID, 'replay', '%s-%s.json' % (pid, core.sig([case, v['key']])))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': case, 'violation': v,
                           'run': './check %s --replay %s' % (pid, os.path.relpath(path, core.VERIF))}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] %s' % (v['key'], v['detail'].strip()[:700].replace('\n', '\n    ')))
            print('  case %s' % json.dumps(case)[:600])
        print('%d violations (%d distinct keys) in %d cases' % (len(fresh), len({v['key'] for _, v in fresh}), agg.cases))
        sys.stdout.flush()
        return 1
    if inconclusive:
        print('property %s: inconclusive after %d cases' % (pid, agg.cases))
        return 2
    print('property %s held: %d cases (%d distinct non-trivial), %d oracle checks, %.1f s' % (
        pid, agg.cases, len(agg.nontrivial), agg.checks, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
