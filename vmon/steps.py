"""Logical step counting and line reach of the code under test via sys.monitoring."""
from __future__ import annotations

import sys

mon = sys.monitoring
TOOL = 3
REPO = "/repo/dissect/volume/"


class BudgetExceeded(BaseException):
    """Raised inside the code under test; not an Exception so that nothing swallows it."""


class Steps:
    def __init__(self):
        self.count = 0
        self.budget = 1 << 62
        self.lines: set[tuple[str, int]] = set()
        self._on = False

    def _hit(self):
        self.count += 1
        if self.count > self.budget:
            self.budget = self.count + 100000  # let handlers run
            raise BudgetExceeded("logical step budget exceeded")

    def _start(self, code, off):
        if not code.co_filename.startswith(REPO):
            return mon.DISABLE
        self._hit()
        return None

    def _jump(self, code, off, dest):
        if not code.co_filename.startswith(REPO):
            return mon.DISABLE
        self._hit()
        return None

    def _line(self, code, line):
        if code.co_filename.startswith(REPO):
            self.lines.add((code.co_filename[len(REPO):], line))
        return mon.DISABLE

    def enable(self):
        if self._on:
            return
        self._on = True
        mon.use_tool_id(TOOL, "vmon")
        E = mon.events
        mon.register_callback(TOOL, E.PY_START, self._start)
        mon.register_callback(TOOL, E.PY_RESUME, self._start)
        mon.register_callback(TOOL, E.JUMP, self._jump)
        mon.register_callback(TOOL, E.LINE, self._line)
        mon.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP | E.LINE)


steps = Steps()
