"""Threads under a seeded scheduler: exactly one thread runs at a time, and it may be switched at
every line, call or opcode executed in objutils.

A thread blocked in a real lock makes no progress; the watcher then lets another one run (so real
locks keep their meaning), and reports a deadlock if nothing moves for a long time.
"""
import hashlib
import sys
import threading
import time

from .core import OBJUTILS


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Result:
    def __init__(self):
        self.values, self.errors, self.switches, self.points, self.steals = {}, {}, 0, 0, 0
        self.places = set()
        self.trail = hashlib.blake2b(digest_size=8)


class Scheduler:
    def __init__(self, rng, granularity="line", p=0.05, stall=0.15, limit=30.0):
        self.rng, self.granularity, self.p, self.stall, self.limit = rng, granularity, p, stall, limit
        self.result = Result()
        self.stop = False
        self.current = None
        self.alive = []
        self.blocked = set()
        self.events = {}
        self.mutex = threading.Lock()

    # -- called in the threads ----------------------------------------------------------
    def _point(self, tid, frame):
        r = self.result
        r.points += 1
        if self.stop:
            raise _Abort()
        if self.current != tid:
            self._wait(tid)
        elif self.rng.random() < self.p:
            others = [t for t in self.alive if t != tid and t not in self.blocked]
            if others:
                to = self.rng.choice(others)
                r.switches += 1
                place = (frame.f_code.co_name, frame.f_lineno or 0)
                r.places.add(place)
                r.trail.update(repr((tid, to, place)).encode())
                self._give(to)
                self._wait(tid)

    def _give(self, to):
        self.current = to
        self.events[to].set()

    def _wait(self, tid):
        ev = self.events[tid]
        with self.mutex:
            self.blocked.discard(tid)
        while self.current != tid:
            ev.wait(1.0)
            ev.clear()
            if self.stop:
                raise _Abort()
        ev.clear()

    def _tracer(self, tid):
        gran = self.granularity

        def local(frame, event, arg):
            if event == gran or event == "line" and gran != "call" or event == "return":
                self._point(tid, frame)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(OBJUTILS):
                return None
            if gran == "opcode":
                frame.f_trace_opcodes = True
            if gran == "call":
                frame.f_trace_lines = False
            self._point(tid, frame)
            return local

        return tracer

    def _main(self, tid, fn):
        try:
            self._wait(tid)
            sys.settrace(self._tracer(tid))
            try:
                self.result.values[tid] = fn()
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            self.result.errors[tid] = e
        finally:
            with self.mutex:
                self.alive.remove(tid)
                self.blocked.discard(tid)
                if self.alive and self.current == tid:
                    ready = [t for t in self.alive if t not in self.blocked] or self.alive
                    self._give(self.rng.choice(ready))

    # -- called by the owner ------------------------------------------------------------
    def run(self, fns):
        n = len(fns)
        self.alive = list(range(n))
        self.events = {t: threading.Event() for t in range(n)}
        threads = [threading.Thread(target=self._main, args=(t, f), daemon=True) for t, f in enumerate(fns)]
        for t in threads:
            t.start()
        self._give(self.rng.randrange(n))
        try:
            last, since = None, time.monotonic()
            while self.alive:
                threads[self.alive[0] if self.alive else 0].join(0.02)
                state = (self.result.points, len(self.alive))
                now = time.monotonic()
                if state != last:
                    last, since = state, now
                elif now - since > self.limit:
                    raise Deadlock("no progress of %d of %d threads for %.0f s" % (len(self.alive), n, self.limit))
                elif now - since > self.stall * (1 + len(self.blocked)):
                    with self.mutex:  # the running thread waits for something; let another one run
                        cur = self.current
                        if cur in self.alive:
                            self.blocked.add(cur)
                        ready = [t for t in self.alive if t not in self.blocked]
                        if not ready:
                            self.blocked = {cur} if len(self.alive) > 1 else set()
                            ready = [t for t in self.alive if t not in self.blocked]
                        if ready:
                            self.result.steals += 1
                            self._give(self.rng.choice(ready))
        finally:
            self.stop = True
            for e in self.events.values():
                e.set()
        for t in threads:
            t.join(5)
        return self.result


def free_run(fns, interval=1e-6, limit=60.0):
    """The same functions as ordinary threads which start at the same moment."""
    r = Result()
    barrier = threading.Barrier(len(fns))

    def main(tid, fn):
        try:
            barrier.wait(limit)
            r.values[tid] = fn()
        except BaseException as e:
            r.errors[tid] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        threads = [threading.Thread(target=main, args=(t, f), daemon=True) for t, f in enumerate(fns)]
        for t in threads:
            t.start()
        end = time.monotonic() + limit
        for t in threads:
            t.join(max(0.0, end - time.monotonic()))
            if t.is_alive():
                raise Deadlock("a thread did not end within %.0f s" % limit)
    finally:
        sys.setswitchinterval(old)
    return r
