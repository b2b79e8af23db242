"""Constructing and compiling samplers for generated models."""
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
import aesara

from vf import nutsub
from vf.composed import Model, used_latents
from vf.core import Skip, Violation, sut


class Built:
    """A model, its sampler, and a compiled function for one iteration."""

    def __init__(self, blocks, seed, kernel="mh", sweeps=5, obs_how="clone", y=None, hold=(), compile_it=True, srng=None, sampler_srng=None, rev_obs=False, model=Model):
        self.srng = RandomStream(seed) if srng is None else srng
        self.model = m = model(blocks, self.srng)
        self.latents = used_latents(m)
        self.obs_vars = {k: v.clone() for k, v in m.observed.items()}
        with sut("construct the sampler"), nutsub.kernel(kernel, sweeps) as self.probes:
            observed = [(m.observed[k], vv) for k, vv in self.obs_vars.items()]
            self.sampler, self.init = aemcmc.construct_sampler(dict(observed[::-1] if rev_obs else observed), sampler_srng or self.srng)
            self.probes = list(self.probes)
        for k, v in self.latents.items():
            if v not in self.sampler.sample_steps or v not in self.init:
                raise Violation(f"{k} has no step or no initial value")
        self.steps = {k: self.sampler.sample_steps[v] for k, v in self.latents.items()}
        self.inits = {k: self.init[v] for k, v in self.latents.items()}
        self.params = [p for ps in self.sampler.parameters.values() for p in ps]
        self.hold = [k for k in hold if k in self.steps]
        if compile_it:
            self.compile()

    @property
    def nuts(self):
        return [k for k, v in self.latents.items() if any(v in self.sampler.stages[op] for op in self.sampler.parameters)]

    def dim(self, shapes):
        """The dimension of the space in which NUTS works."""
        d = 0
        for k in self.nuts:
            n = int(np.prod(shapes[k])) if shapes[k] else 1
            d += n - 1 if self.model.support[k] == "simplex" else n
        return d

    def compile(self, mode=None):
        m = self.model
        with sut("compile the sampler's steps"):
            self.f = aesara.function(
                m.ins.vars + list(self.inits.values()) + list(self.obs_vars.values()) + self.params,
                list(self.steps.values()),
                updates=self.sampler.updates,
                givens={self.steps[k]: self.inits[k] for k in self.hold},
                on_unused_input="ignore",
                mode=mode,
            )

    def param_values(self, theta, step_scale=0.8):
        if not self.params:
            return []
        d = self.dim({k: np.shape(v) for k, v in theta.items()})
        res = []
        for p in self.params:
            res.append(np.array(step_scale / np.sqrt(d)) if p.type.ndim == 0 else np.ones(d))
        return res

    def step(self, theta, y, params=None):
        if params is None:
            params = self.param_values(theta)
        out = self.f(*self.model.ins.vals, *[theta[k] for k in self.inits], *[y[k] for k in self.obs_vars], *params)
        return dict(zip(self.steps, out))


def moderate_draw(b, draw, tries=60):
    """A draw of the model's variables away from the edges of their supports."""
    for _ in range(tries):
        try:
            d = draw()
        except ValueError:
            continue
        if is_moderate(b.model, d):
            return {k: d[k] for k in b.latents}, {k: d[k] for k in b.model.observed}
    raise Skip


def is_moderate(model, d):
    if any(np.max(d[k]) > 60 for k in model.counts):
        return False
    for k in model.observed:
        if not np.all(np.abs(d[k]) < 1e4):
            return False
    for k in model.latents:
        v = np.asarray(d[k])
        if not np.all(np.abs(v) < 30):
            return False
        if model.support[k] != "real" and np.any(np.abs(v) < 1e-2):
            return False
        if model.support[k] in ("unit", "simplex") and np.any(v > 0.995):
            return False
    return True


def rng_state(value):
    """A comparable form of a generator's state."""
    s = value.bit_generator.state if hasattr(value, "bit_generator") else value.get_state()
    return repr(s)


def is_rng(var):
    from aesara.tensor.random.type import RandomType

    return isinstance(var.type, RandomType)


def shared_rngs(f):
    """The shared generators of a compiled function."""
    return [v for v in f.get_shared() if is_rng(v)]


def save_states(rngs):
    import copy

    return [(r, copy.deepcopy(r.get_value(borrow=True))) for r in rngs]


def restore_states(saved):
    import copy

    for r, v in saved:
        r.set_value(copy.deepcopy(v), borrow=True)
