"""Cheap branch-novelty feedback for guided generation (sys.monitoring)."""
from __future__ import annotations

import sys

try:
    MONITORING = sys.monitoring
except AttributeError:
    MONITORING = None


class Novelty:
    """Counts (code, branch, destination) triples of rene seen first."""

    def __init__(self, marker):
        self.seen = {}
        self.fresh = 0
        self.on = False
        self._marker = marker

    def start(self):
        if MONITORING is None:
            return False
        try:
            MONITORING.use_tool_id(MONITORING.COVERAGE_ID, 'rv')
        except ValueError:
            return False
        MONITORING.register_callback(MONITORING.COVERAGE_ID,
                                     MONITORING.events.BRANCH, self._branch)
        MONITORING.set_events(MONITORING.COVERAGE_ID,
                              MONITORING.events.BRANCH)
        self.on = True
        return True

    def _branch(self, code, offset, destination):
        if self._marker not in code.co_filename:
            return MONITORING.DISABLE
        key = (code, offset)
        known = self.seen.get(key)
        if known is None:
            self.seen[key] = (destination,)
            self.fresh += 1
            return None
        if destination in known:
            return None
        self.seen[key] = (*known, destination)
        self.fresh += 1
        return MONITORING.DISABLE if len(known) >= 1 else None

    def take(self):
        count, self.fresh = self.fresh, 0
        return count

    def total(self):
        return sum(map(len, self.seen.values()))
