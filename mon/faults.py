"""Fault injection: raise an exception just before the k-th executed source line of the code
under test or of LAB (sys.monitoring LINE events)."""

import os
import sys


class Fault(MemoryError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class Injector:
    TOOL = 3

    def __init__(self, roots):
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots)
        self.count = 0
        self.at = None
        self.kind = Fault
        self.fired = None
        self.ours = {}
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "mon-faults")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)

    def _line(self, code, line):
        ours = self.ours.get(code)
        if ours is None:
            ours = self.ours[code] = os.path.realpath(code.co_filename).startswith(self.roots)
        if not ours:
            return sys.monitoring.DISABLE
        self.count += 1
        if self.count == self.at:
            self.fired = f"{os.path.basename(code.co_filename)}:{line}"
            raise self.kind(f"injected before {self.fired}")

    def run(self, f, at=None, kind=Fault):
        """(result, exception or None, lines executed)"""
        mon = sys.monitoring
        self.count, self.at, self.kind, self.fired = 0, at, kind, None
        mon.set_events(self.TOOL, mon.events.LINE)
        try:
            try:
                return f(), None, self.count
            finally:
                mon.set_events(self.TOOL, 0)
        except (Exception, KeyboardInterrupt) as e:
            return None, e, self.count
