"""W01: see _web."""
from props import _web
from props._web import ASSUMPTIONS, REAL, STUB  # noqa: F401

LEVEL = "exploration"
LEVEL_NOTE = "samples histories of update checks in simulated processes on simulated storage, network and clock; every file operation and network exchange may fail, and the process may die at any of them"
TECHNIQUE = "deterministic simulation: scripted servers below the real requests stack, interposed storage with torn and failing operations, crashes, virtual clock and interleaved processes; checked against a reference of the cache"
RULE = "a run is non-trivial if it made at least two update checks; distinct by the digest of what was asked, said and done"
RUNS = {"quick": 4000, "thorough": 150000}
BATCH = 20
SHRINK = ("steps", "net", "faults")
PROP = "W01"


def gen(rng, i, tier):
    return _web.gen_history(rng, PROP)


def execute(plan, out):
    _web.execute(plan, out, PROP)


def shrink(plan):
    yield from _web.shrink(plan)
