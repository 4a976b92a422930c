"""Classes with cached methods used by C05 (module level, so they can be pickled)."""
from spey.system.cache import cache_results

WORLD = None


class Plain:
    def __init__(self, tag=0):
        self.tag = tag

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        return WORLD.body(self, "Plain.m", x, k)

    @cache_results(maxsize=64, copy_on_return=False)
    def n(self, x=0, *, k=1):
        return WORLD.body(self, "Plain.n", x, k)


class Over(Plain):
    """Overrides m and calls the overridden method with the same arguments."""

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        base = super().m(x, k=k)
        return WORLD.body(self, "Over.m", x, k, base)


class OverTwice(Over):
    @cache_results(maxsize=64)
    def m(self, x=0, *, k=1):
        base = super().m(x, k=k)
        return WORLD.body(self, "OverTwice.m", x, k, base)


class Slots:
    __slots__ = ("tag", "uid")

    def __init__(self, tag=0):
        self.tag = tag

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        return WORLD.body(self, "Slots.m", x, k)

    @cache_results(maxsize=64, copy_on_return=False)
    def n(self, x=0, *, k=1):
        return WORLD.body(self, "Slots.n", x, k)


class SlotsWeak:
    __slots__ = ("tag", "uid", "__weakref__")

    def __init__(self, tag=0):
        self.tag = tag

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        return WORLD.body(self, "SlotsWeak.m", x, k)

    @cache_results(maxsize=64, copy_on_return=False)
    def n(self, x=0, *, k=1):
        return WORLD.body(self, "SlotsWeak.n", x, k)


class SlotsOver(SlotsWeak):
    __slots__ = ()

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        base = super().m(x, k=k)
        return WORLD.body(self, "SlotsOver.m", x, k, base)


class Value(Plain):
    """Compares equal to every other instance with the same tag."""

    def __eq__(self, other):
        return isinstance(other, Value) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag)


class Unhashable(Plain):
    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.tag == other.tag

    __hash__ = None


class ListLike(list):
    def __init__(self, tag=0):
        super().__init__([tag])
        self.tag = tag

    @cache_results(maxsize=64, per_instance=True)
    def m(self, x=0, *, k=1):
        return WORLD.body(self, "ListLike.m", x, k)

    @cache_results(maxsize=64, copy_on_return=False)
    def n(self, x=0, *, k=1):
        return WORLD.body(self, "ListLike.n", x, k)


CLASSES = {c.__name__: c for c in (Plain, Over, OverTwice, Slots, SlotsWeak, SlotsOver, Value,
                                   Unhashable, ListLike)}
# methods below the public one, innermost first
CHAIN = {"Over": ["Plain.m", "Over.m"], "OverTwice": ["Plain.m", "Over.m", "OverTwice.m"],
         "SlotsOver": ["SlotsWeak.m", "SlotsOver.m"]}
WEAK = set(CLASSES) - {"Slots"}
