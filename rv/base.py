"""What a property module provides."""
from __future__ import annotations

ASSUMPTIONS = (
    'the pure-Python implementation in /repo/rene decides (the optional Rust '
    'extension is not built here)',
    'rv/ref.py (exact integer arrangement) states the expected answer',
    'search over generated cases: absence of violations is not a proof',
)


class Property:
    id = ''
    rule = ''
    assumptions = ASSUMPTIONS
    guided = True
    # (cases, seconds cap) per tier
    quick = (2000, 240)
    thorough = (40000, 3000)

    def budget(self, tier):
        return self.quick if tier == 'quick' else self.thorough

    def prepare(self):
        """Called in a process before its first case."""

    def enumerated(self, tier):
        return ()

    def make(self, src):
        raise NotImplementedError

    def run(self, case, ctx):
        """None, or what is wrong."""
        raise NotImplementedError
