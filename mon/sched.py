"""A scheduler for threads: exactly one of them runs at any time, and control may move to
another one before every executed source line of the code under test or of LAB. The schedule
is decided by a seeded generator, so that it can be replayed."""

import os
import sys
import threading


class Stall(RuntimeError):
    pass


class Scheduler:
    TOOL = 2

    def __init__(self, roots):
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots)
        self.ours = {}
        self.ids = {}
        self.on = False
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "mon-sched")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)

    def _line(self, code, line):
        ours = self.ours.get(code)
        if ours is None:
            ours = self.ours[code] = os.path.realpath(code.co_filename).startswith(self.roots)
        if not ours:
            return sys.monitoring.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None or not self.on:
            return
        self.events += 1
        if self.pick(self.events):
            self._switch(me, (os.path.basename(code.co_filename), line))

    def _switch(self, me, where):
        others = [i for i in self.alive if i != me]
        if not others:
            return
        to = others[int(self.rng.integers(len(others)))]
        self.trace.append((me, to) + where)
        self.locks[to].release()
        self._wait(me)

    def _wait(self, me):
        if not self.locks[me].acquire(timeout=20):
            self.on = False  # let everything run freely; the run does not count
            self.stalled = True

    def run(self, jobs, rng, pick):
        """Run the jobs (functions), one per thread; `pick(k)` says whether to switch before
        the k-th line event. Returns the trace of switches."""
        self.rng, self.pick = rng, pick
        self.events, self.trace, self.stalled = 0, [], False
        self.alive = list(range(len(jobs)))
        self.locks = [threading.Lock() for _ in jobs]
        self.ids = {}
        for lock in self.locks:
            lock.acquire()
        errors = []

        def body(i, job):
            self.ids[threading.get_ident()] = i
            self._wait(i)
            try:
                job()
            except BaseException as e:  # noqa
                errors.append(e)
            self.alive.remove(i)
            if self.alive:
                self.locks[self.alive[int(self.rng.integers(len(self.alive)))]].release()

        mon = sys.monitoring
        threads = [threading.Thread(target=body, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
        self.on = True
        mon.set_events(self.TOOL, mon.events.LINE)
        try:
            for t in threads:
                t.start()
            self.locks[self.alive[0]].release()
            for t in threads:
                t.join(60)
                if t.is_alive():
                    self.stalled = True
        finally:
            self.on = False
            mon.set_events(self.TOOL, 0)
        if errors:
            raise errors[0]
        return self.trace
