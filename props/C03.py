from props import _cache
from props._cache import ASSUMPTIONS, REAL, RULE, STUB  # noqa: F401

LEVEL = "exploration"
LEVEL_NOTE = "samples schedules; a call that can never end is detected exactly (nothing runnable, no timer pending), then every entry is probed again"
TECHNIQUE = "deterministic simulation: seeded thread schedules and failing evaluations over the real cache"
RUNS = {"quick": 10000, "thorough": 150000}
BATCH = 100


def gen(rng, i, tier):
    return _cache.gen(rng, i, tier, "C03")


def execute(plan, out):
    world = _cache.execute(plan, out)
    _cache.check_liveness(world, out, plan)
