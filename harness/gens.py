"""Shared Hypothesis strategies (all of them yield plain JSON values) and expanders."""
import numpy as np
from hypothesis import strategies as st


def fl(a, b, **kw):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, width=64, **kw)


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def nice(a, b):
    """Floats in [a, b], a third of them 'round' numbers: short decimals and the end points."""
    a, b = float(a), float(b)
    snap = lambda v: 0.0 if abs(v) < 1e-9 and a <= 0 <= b else v       # no denormals
    return st.one_of(fl(a, b), st.integers(0, 40).map(lambda i: a + (b - a) * i / 40.0), st.sampled_from([a, b])).map(snap)


def q20(v):
    """v on the grid 2**-20: sums and differences of such numbers are exact, so that ties are real ties."""
    return round(v * 2 ** 20) / 2.0 ** 20


@st.composite
def signals(draw, min_size=3, max_size=60, lo=-4, hi=4, raw=False):
    """Signals rich in ties, plateaus, monotone stretches and level touches; values are dyadic unless raw."""
    kind = draw(st.sampled_from(['int', 'int', 'smallint', 'float', 'halves', 'runs', 'walk', 'waves']))
    n_max = max_size
    if kind == 'int':
        return [float(v) for v in draw(st.lists(st.integers(lo, hi), min_size=min_size, max_size=n_max))]
    if kind == 'smallint':
        return [float(v) for v in draw(st.lists(st.integers(-1, 1), min_size=min_size, max_size=n_max))]
    if kind == 'float':
        v = draw(st.lists(fl(-10, 10), min_size=min_size, max_size=n_max))
        return v if raw else [q20(y) for y in v]
    if kind == 'halves':
        return [0.5 * v for v in draw(st.lists(st.integers(-9, 9), min_size=min_size, max_size=n_max))]
    if kind == 'runs':
        runs = draw(st.lists(st.tuples(st.integers(lo, hi), st.integers(1, 4)), min_size=min_size,
                             max_size=max(min_size, n_max // 2)))
        return [float(v) for v, k in runs for _ in range(k)]
    if kind == 'walk':
        steps = draw(st.lists(st.integers(-3, 3), min_size=min_size, max_size=n_max))
        return [float(v) for v in np.cumsum(steps)]
    n = draw(st.integers(max(min_size, 20), max(2 * n_max, 40)))
    a, b, c = draw(fl(0.05, 1.2)), draw(fl(0.3, 3.0)), draw(fl(0, 6.3))
    t = np.arange(n)
    return [q20(float(v)) for v in np.sin(a * t) + 0.4 * np.sin(b * t + c)]


def rs(seed):
    return np.random.RandomState(seed)
