"""Random model graphs: random variables whose parameters are random expressions.

A program is a JSON-able list of random variables; each parameter is a nested
list [op, args...] whose leaves are inputs, constants, shared variables and
earlier random variables.
"""
import numpy as np
from hypothesis import strategies as st

import aesara
import aesara.tensor as at

N = 3
UNARY = ["neg", "exp", "sigmoid", "square", "abs", "log1p", "T", "row", "col", "sum", "sum0", "keepsum", "softmax", "take", "slice", "copy", "ravel", "addT", "add0", "mul1"]
BINARY = ["add", "mul", "sub", "div", "pow", "switch", "dot", "max", "sub_c", "mul_c", "add_c", "stack"]

#: family -> number and kinds of parameters
FAMILIES = {
    "normal": ("real", "pos"),
    "gamma": ("pos", "pos"),
    "beta": ("pos", "pos"),
    "poisson": ("pos",),
    "bernoulli": ("unit",),
    "binomial": ("five", "unit"),
    "nbinom": ("pos", "unit"),
    "halfcauchy": ("real", "pos"),
    "exponential": ("pos",),
    "uniform": ("real", "above"),
}


def exprs(draw, depth, n_rvs):
    """A random expression; ["rv", i] refers to the random variable i."""
    if depth == 0 or draw(st.integers(0, 6)) == 0:
        kind = draw(st.integers(0, 5))
        if kind <= 2 and n_rvs:
            return ["rv", n_rvs - 1 - draw(st.integers(0, n_rvs - 1))]
        if kind in (0, 3):
            return ["const", draw(st.sampled_from([2.0, -1.0, 0.5, 3.0, 0.0, 1.0, -2.5])), draw(st.sampled_from([[], [], [1], [N], [1, N], [N, N], [N, 1]]))]
        if kind == 1:
            return ["int", draw(st.sampled_from([2, -1, 1, 0, 3]))]
        return ["in", draw(st.sampled_from(["s", "v", "X", "w", "row", "col", "one", "i", "sh_s", "sh_v", "sh_X"]))]
    if draw(st.booleans()):
        return [draw(st.sampled_from(UNARY)), exprs(draw, depth - 1, n_rvs)]
    return [draw(st.sampled_from(BINARY)), exprs(draw, depth - 1, n_rvs), exprs(draw, depth - 1, n_rvs)]


@st.composite
def programs(draw, max_rvs=5, depth=3):
    rvs = []
    for i in range(draw(st.integers(1, max_rvs))):
        fam = draw(st.sampled_from(sorted(FAMILIES)))
        pars = [exprs(draw, draw(st.integers(0, depth)), i) if k != "five" else draw(st.sampled_from([5, 1, 3])) for k in FAMILIES[fam]]
        rvs.append(dict(family=fam, pars=pars, size=draw(st.sampled_from([None, None, None, "lead", "sym", "inner"]))))
    return rvs


def static_shape(x):
    return x.type.shape


class Program:
    def __init__(self, spec, srng, values_seed=0, sizes=True):
        rng = np.random.default_rng(values_seed)
        f = lambda *s: rng.normal(size=s)  # noqa: E731
        self.srng = srng
        self.leaves = dict(
            s=(at.scalar("s"), f()),
            v=(at.vector("v"), f(N)),
            w=(at.vector("w"), f(N)),
            X=(at.matrix("X"), f(N, N)),
            row=(at.row("row"), f(1, N)),
            col=(at.col("col"), f(N, 1)),
            one=(at.tensor("float64", shape=(1,), name="one"), f(1)),
            i=(at.lvector("i"), rng.integers(-2, 4, size=N)),
        )
        self.shared = dict(
            sh_s=aesara.shared(float(f()), name="sh_s"),
            sh_v=aesara.shared(f(N), name="sh_v"),
            sh_X=aesara.shared(f(N, N), name="sh_X"),
        )
        self.in_vars = [v for v, _ in self.leaves.values()]
        self.in_vals = [x for _, x in self.leaves.values()]
        self.rvs = []
        self.families = []
        for i, r in enumerate(spec):
            self.rvs.append(self.rv(r, i))

    def rv(self, r, i):
        pars = []
        for k, e in zip(FAMILIES[r["family"]], r["pars"]):
            if k == "five":
                pars.append(e)
                continue
            x = at.as_tensor(self.expr(e))
            if x.type.dtype != "float64" and k != "above":
                x = at.cast(x, "float64") if k == "real" else x
            if k == "pos":
                x = at.exp(at.clip(x, -1.5, 1.5))
            elif k == "unit":
                x = at.sigmoid(at.clip(x, -3.0, 3.0))
            elif k == "above":
                x = pars[0] + at.exp(at.clip(x, -1.5, 1.5))
            pars.append(x)
        size = None
        if r["size"] and all(getattr(p, "ndim", 0) == 0 for p in pars):
            size = {"lead": (N,), "sym": (self.leaves["X"][0].shape[0],), "inner": (self.leaves["X"][0].shape[0], 2)}[r["size"]]
        elif r["size"] == "lead" and all(getattr(p, "ndim", 0) <= 1 for p in pars) and any(_is_vec(p) for p in pars):
            size = (2, N)
        return getattr(self.srng, r["family"])(*pars, size=size, name=f"rv{i}")

    def expr(self, e):
        op, *args = e
        if op == "rv":
            return self.rvs[args[0]]
        if op == "const":
            val, shape = args
            a = np.full(shape, val)
            if a.size > 1:
                a = a + np.arange(a.size).reshape(shape) * 0.25
            return at.as_tensor(a)
        if op == "int":
            return at.as_tensor(args[0])
        if op == "in":
            return self.shared[args[0]] if args[0].startswith("sh_") else self.leaves[args[0]][0]
        x = [at.as_tensor(self.expr(a)) for a in args]
        return getattr(self, "op_" + op)(*x)

    op_neg = staticmethod(lambda x: -x)
    op_exp = staticmethod(lambda x: at.exp(at.clip(x, -3.0, 3.0)))
    op_sigmoid = staticmethod(lambda x: at.sigmoid(x))
    op_square = staticmethod(lambda x: x**2)
    op_abs = staticmethod(lambda x: at.abs(x))
    op_log1p = staticmethod(lambda x: at.log1p(at.abs(x)))
    op_T = staticmethod(lambda x: x.T)
    op_copy = staticmethod(lambda x: at.as_tensor(x) + 0.0)
    op_add0 = staticmethod(lambda x: 0.0 + x)
    op_mul1 = staticmethod(lambda x: x * 1.0)
    op_sum = staticmethod(lambda x: x.sum())
    op_add = staticmethod(lambda x, y: x + y)
    op_mul = staticmethod(lambda x, y: x * y)
    op_sub = staticmethod(lambda x, y: x - y)
    op_div = staticmethod(lambda x, y: x / (1.0 + y**2))
    op_pow = staticmethod(lambda x, y: (1.0 + at.abs(x)) ** at.clip(y, -1.0, 1.0))
    op_switch = staticmethod(lambda x, y: at.switch(x > 0.0, x, y))
    op_max = staticmethod(lambda x, y: at.maximum(x, y))
    op_sub_c = staticmethod(lambda x, y: 2.0 - x + 0.0 * y)
    op_mul_c = staticmethod(lambda x, y: (-1.0 * x) + y)
    op_add_c = staticmethod(lambda x, y: (x + 3.0) * y)

    @staticmethod
    def op_row(x):
        return x[None, :] if x.ndim == 1 else (x.dimshuffle("x") if x.ndim == 0 else x)

    @staticmethod
    def op_col(x):
        return x[:, None] if x.ndim == 1 else (x.dimshuffle("x", "x") if x.ndim == 0 else x)

    @staticmethod
    def op_sum0(x):
        return x.sum(axis=0) if x.ndim else x

    @staticmethod
    def op_keepsum(x):
        return x - x.mean(axis=-1, keepdims=True) if x.ndim else x

    @staticmethod
    def op_softmax(x):
        from aesara.tensor.special import softmax

        return softmax(x, axis=-1) if x.ndim and x.dtype == "float64" else x

    @staticmethod
    def op_take(x):
        return x[0] if x.ndim else x

    @staticmethod
    def op_slice(x):
        return x[::-1] if x.ndim else x

    @staticmethod
    def op_ravel(x):
        return x.T.T if x.ndim > 1 else x.reshape((1, -1))

    @staticmethod
    def op_addT(x):
        return (x.dimshuffle("x", 1, 0) + at.exp(x))[0] if x.ndim == 2 else x

    @staticmethod
    def op_dot(x, y):
        if x.ndim in (1, 2) and y.ndim in (1, 2):
            return at.dot(x, y)
        return x * y

    @staticmethod
    def op_stack(x, y):
        if x.ndim == 0 and y.ndim == 0:
            return at.stack([x, y, x])
        return x + y


def _is_vec(p):
    return getattr(p, "ndim", 0) == 1 and p.type.shape != (1,)
