"""Which source lines of the code under test the workload reached (sys.monitoring: every
line reports once and is then disabled, so the cost is negligible)."""

import os
import sys


class LineCoverage:
    TOOL = 4

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.hit = set()

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith(self.root):
            self.hit.add((f[len(self.root):], line))
        return sys.monitoring.DISABLE

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "mon-lines")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        try:
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
        except ValueError:
            pass

    def lines(self):
        return list(self.hit)
