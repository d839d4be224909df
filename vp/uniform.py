"""A source of choices for hypothesis that draws every choice uniformly and independently.

hypothesis follows each generated case by up to five cases in which choices of the same kind
are replaced by copies of one another, and prefers small and special integers; workers that
use this source explore the space of cases evenly.  Shrinking is that of hypothesis.
"""
import random

from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS, PrimitiveProvider


class Uniform(PrimitiveProvider):
    rng = random.Random(0)

    def draw_boolean(self, p=0.5):
        return p > 0 and (p >= 1 or self.rng.random() < p)

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        return self.rng.randint(min_value, max_value)

    def _no(self, *a, **k):
        raise NotImplementedError('only integers and booleans are drawn')

    draw_float = draw_string = draw_bytes = _no


def install(seed):
    Uniform.rng = random.Random(seed)
    AVAILABLE_PROVIDERS['vp-uniform'] = Uniform
    return 'vp-uniform'
