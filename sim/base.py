"""Defaults shared by the checks."""
from . import core


class BaseCheck:
    quick_runs = 200
    thorough_runs = 5000
    quick_wall = 240.0       # stop starting new runs after this many real seconds
    thorough_wall = 3600.0
    rule = ""
    sim_time_note = "virtual clock: one second per step of the simulator"
    state_note = ""
    real = []
    stubs = []
    assumptions = []
    shrink_keys = []

    def setup(self):
        pass

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        yield from core.shrink_lists(case, self.shrink_keys)
