"""Monitor: records the events observed and the violations found while a case runs."""
import collections
import hashlib
import json
import os
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KYMON_REPO', '/repo')


def sig(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Monitor:
    """Per-case event recorder and oracle sink."""

    def __init__(self):
        self.events = collections.Counter()
        self.states = collections.defaultdict(set)
        self.violations = []
        self.checks = 0
        self.nontrivial = False
        self.sample = None
        self.notes = []
        self.margins = {}

    def event(self, kind, n=1):
        self.events[kind] += n

    def state(self, kind, value):
        s = self.states[kind]
        if len(s) < 5000:
            s.add(sig(value))

    def margin(self, key, ratio):
        """Largest observed error over its tolerance."""
        r = float(ratio)
        if r == r and r > self.margins.get(key, 0.0):
            self.margins[key] = r

    def below(self, err, tol, key, detail=''):
        """err <= tol (NaN fails); the largest ratio is recorded."""
        err, tol = float(err), float(tol)
        self.margin(key, err / tol if tol > 0 else (0.0 if err == 0 else float('inf')))
        return self.check(err <= tol, key, lambda: '%s: %.4g exceeds %.4g' % (detail, err, tol))

    def violate(self, key, detail=''):
        if len(self.violations) < 20:
            self.violations.append({'key': key, 'detail': str(detail)[:1500]})

    def check(self, ok, key, detail=''):
        self.checks += 1
        if not ok:
            self.violate(key, detail() if callable(detail) else detail)
        return bool(ok)

    def attempt(self, fn, key, detail=''):
        """(True, fn()), or (False, None) with a violation if it raises, wherever the exception comes from."""
        self.checks += 1
        try:
            return True, fn()
        except (HarnessError, Skip):
            raise
        except Exception as e:
            self.violate(key, '%s: %s: %s' % (detail() if callable(detail) else detail, type(e).__name__, str(e)[:600]))
            return False, None

    def equal(self, a, b, key, detail=''):
        return self.check(a == b, key, lambda: '%s: got %r, expected %r' % (detail, a, b))

    def close(self, got, want, key, rtol, atol=0.0, scale=None, detail=''):
        """max |got-want| <= rtol*scale + atol, with scale = max|want| unless given."""
        import numpy as np
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violate(key, '%s shape %s, expected %s' % (detail, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        if scale is None:
            scale = float(np.max(np.abs(want)))
        if scale > 0:
            self.nontrivial = True
        with np.errstate(all='ignore'):
            d = np.abs(got.astype(np.complex128 if np.iscomplexobj(got) else np.float64) - want)
        bad = ~np.isfinite(d)
        err = float('inf') if bad.any() else float(d.max())
        self.margin(key, err / (rtol * scale + atol) if rtol * scale + atol > 0 else 0)
        if not err <= rtol * scale + atol:
            i = int(np.argmax(np.where(bad, np.inf, d)))
            self.violate(key, '%s: error %.3e at flat index %d of shape %s (got %r, expected %r; scale %.3e, rtol %g, atol %g)' % (
                detail, err, i, got.shape, got.ravel()[i].item(), want.ravel()[i].item(), scale, rtol, atol))
            return False
        return True

    def same(self, a, b, key, detail=''):
        """Bit-identical arrays (NaN equal to NaN)."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b) or np.array_equal(a, b, equal_nan=True))
        if a.size and np.any(a):
            self.nontrivial = True
        return self.check(ok, key, lambda: '%s: %s %s vs %s %s, max diff %s' % (
            detail, a.dtype, a.shape, b.dtype, b.shape,
            np.abs(a.astype(float) - b.astype(float)).max() if a.shape == b.shape and a.size else '-'))

    def result(self):
        return {'events': dict(self.events), 'states': {k: sorted(v) for k, v in self.states.items()},
                'violations': self.violations, 'margins': self.margins, 'checks': self.checks, 'nontrivial': self.nontrivial,
                'sample': self.sample, 'notes': self.notes[:5]}


def malformed(e):
    """Whether an exception outside the repository's code comes from what that code returned, not from the machine or the harness."""
    import subprocess
    if isinstance(e, (MemoryError, OSError, NameError, AttributeError, ImportError, EOFError, subprocess.SubprocessError)):
        return False
    text = str(e).lower()
    return not any(w in text for w in ('memory', 'thread', 'resource', 'broken pipe', 'exhausted', 'allocat', 'fork'))


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The case turned out to be outside the domain."""


def in_repo(tb):
    """True if the innermost frames of the exception passed through code of the repository."""
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return True
    return False
