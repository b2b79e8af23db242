"""Helpers to build symbolic models from plain (JSON-able) case descriptions."""
import aesara
import aesara.tensor as at
import numpy as np
from hypothesis import strategies as st

#: The ways in which the numeric inputs of a model can be given
PASSING = ["const", "input", "shared", "expr"]


class Inputs:
    """Collects the symbolic inputs of a compiled function and their values."""

    def __init__(self):
        self.vars, self.vals = [], []

    def add(self, var, val):
        self.vars.append(var)
        self.vals.append(val)
        return var

    def give(self, val, how: str, name: str, dtype="float64", static=True):
        """Make a symbolic variable out of a numeric value."""
        val = np.asarray(val, dtype=dtype)
        if how == "const":
            return at.as_tensor(val)
        if how == "shared":
            return aesara.shared(val, name=name, shape=val.shape if static else None)
        shape = tuple(1 if s == 1 else None for s in val.shape)
        var = at.tensor(dtype, shape=shape, name=name)
        self.add(var, val)
        if how == "expr":
            return at.exp(at.log(var)) if dtype.startswith("float") and np.all(val > 0) else var * 1
        assert how == "input", how
        return var


def fn(ins: Inputs, outs, extra_vars=(), updates=None, **kw):
    """Compile a function whose fixed inputs are those of `ins`."""
    f = aesara.function(
        list(ins.vars) + list(extra_vars),
        outs,
        updates=updates,
        on_unused_input="ignore",
        **kw,
    )
    vals = list(ins.vals)

    def call(*args):
        return f(*vals, *args)

    call.raw = f
    return call


seeds = st.integers(0, 2**31 - 1)
#: The kind of a stream's generators: NumPy's current or legacy ones
rng_kinds = st.sampled_from(["Generator", "Generator", "Generator", "RandomState"])


def rng_ctor(case):
    return np.random.RandomState if case.get("rng") == "RandomState" else np.random.default_rng


def logu(lo, hi):
    """Positive floats, uniform on the log scale, with short representations."""
    a, b = int(round(np.log10(lo) * 40)), int(round(np.log10(hi) * 40))
    return st.integers(a, b).map(lambda k: float(f"{10 ** (k / 40):.4g}"))


def unif(lo, hi, steps=200):
    return st.integers(0, steps).map(lambda k: float(f"{lo + (hi - lo) * k / steps:.4g}"))


def arr(elem, shape):
    """A nested list of the given shape."""
    if not shape:
        return elem
    return st.lists(arr(elem, shape[1:]), min_size=shape[0], max_size=shape[0])


@st.composite
def units(draw, p, separate, limit=5):
    """Powers of ten; all equal unless `separate`."""
    kind = draw(st.sampled_from(["none", "none", "all", "each"]))
    if kind == "none":
        return [0] * p
    el = st.integers(-limit, limit)
    if kind == "all" or not separate:
        return [draw(el)] * p
    return draw(st.lists(el, min_size=p, max_size=p))
