"""Controlled thread schedules: at most one thread runs, switches happen at lines of the code under test.

A sys.settrace hook makes every executed line (optionally every bytecode) of /repo/kymatio a scheduling
point; a seeded policy decides which thread continues.  A thread that blocks (e.g. on a lock of the code
under test) loses its turn after a short wait, so that locking code is not mistaken for a deadlock.
"""
import os
import sys
import threading
import time

from . import core

PREFIX = os.path.join(core.REPO, 'kymatio') + os.sep


class Scheduler:
    def __init__(self, fns, rng, policy='random', p=0.05, opcodes=False, stall=0.25, prefix=PREFIX, limit=60.0):
        self.fns, self.rng, self.policy, self.p, self.opcodes, self.stall, self.prefix = fns, rng, policy, p, opcodes, stall, prefix
        n = len(fns)
        self.n = n
        self.cv = threading.Condition()
        self.turn = -1
        self.alive = [True] * n
        self.results = [None] * n
        self.switches = []
        self.points = 0
        self.stalls = 0
        self.beat = 0
        self.end = time.time() + limit
        self.prio = list(rng.permutation(n))
        self.change = set(int(v) for v in rng.integers(1, 4000, 6))
        self.started = 0

    # -- policy
    def choose(self, me):
        live = [i for i in range(self.n) if self.alive[i]]
        if not live:
            return -1
        if self.policy == 'pct':
            if self.points in self.change and me in live:
                self.prio[me] = min(self.prio) - 1
            return max(live, key=lambda i: self.prio[i])
        if me in live and self.rng.random() >= self.p:
            return me
        if self.policy == 'round':
            return live[(live.index(me) + 1) % len(live)] if me in live else live[0]
        return live[int(self.rng.integers(len(live)))]

    def point(self, me, where):
        with self.cv:
            self.points += 1
            self.beat += 1
            if self.turn != me:
                # lost the turn while blocked elsewhere: queue up again
                self._wait(me)
                return
            nxt = self.choose(me)
            if nxt != me:
                if len(self.switches) < 100000:
                    self.switches.append((me, nxt, where))
                self.turn = nxt
                self.cv.notify_all()
                self._wait(me)

    def _wait(self, me):
        beat, t = self.beat, time.time()
        while self.turn != me and time.time() < self.end:
            self.cv.wait(self.stall / 5)
            if self.beat != beat:
                beat, t = self.beat, time.time()
            elif time.time() - t > self.stall and self.turn != me:
                # the running thread neither yields nor ends: it is blocked or in a long native call
                self.stalls += 1
                self.turn = me
                self.beat += 1
                self.cv.notify_all()

    def _tracer(self, me):
        prefix, point, opcodes = self.prefix, self.point, self.opcodes

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(prefix):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return tracer

    def _body(self, me):
        with self.cv:
            self.started += 1
            self.cv.notify_all()
            self._wait(me)
        sys.settrace(self._tracer(me))
        try:
            self.results[me] = ('ok', self.fns[me]())
        except BaseException as e:
            import traceback
            self.results[me] = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
        finally:
            sys.settrace(None)
            with self.cv:
                self.alive[me] = False
                self.beat += 1
                if self.turn == me or not self.alive[self.turn]:
                    self.turn = self.choose(me)
                self.cv.notify_all()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        with self.cv:
            while self.started < self.n:
                self.cv.wait(1)
            self.turn = self.choose(-1)
            self.beat += 1
            self.cv.notify_all()
        for t in ths:
            t.join(max(1.0, self.end - time.time() + 30))
        return self.results


def free(fns, repeats=1):
    """Uncontrolled threads started together, with a very short switch interval."""
    n = len(fns)
    out = [None] * n
    bar = threading.Barrier(n)

    def body(i):
        bar.wait()
        try:
            out[i] = ('ok', [fns[i]() for _ in range(repeats)])
        except BaseException as e:
            import traceback
            out[i] = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    return out
