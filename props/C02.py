from props import _cache
from props._cache import ASSUMPTIONS, REAL, RULE, STUB  # noqa: F401

LEVEL = "exploration"
LEVEL_NOTE = "samples schedules; overlap and recomputation are judged exactly on the recorded history"
TECHNIQUE = "deterministic simulation: seeded thread schedules and failing evaluations over the real cache"
RUNS = {"quick": 10000, "thorough": 150000}
BATCH = 100


def gen(rng, i, tier):
    return _cache.gen(rng, i, tier, "C02")


def execute(plan, out):
    world = _cache.execute(plan, out)
    _cache.check_single_flight(world, out, plan)
