"""A stand-in for aehmc's NUTS kernel.

aemcmc builds the NUTS step from three ingredients: the initial position (in the
transformed space), a log-density function, and aehmc's kernel.  aehmc is a
trusted dependency, but compiling its kernel takes ten seconds and running it
tens of milliseconds.  `install` (called before aemcmc is imported) lets a check
substitute another valid kernel for the same interface:

``real``   aehmc's own kernel
``mh``     random-walk Metropolis on the log-density that aemcmc supplies
``probe``  the new position is an explicit input, so that the log-density and
           the transforms built by aemcmc can be evaluated anywhere
"""
import contextlib

import aesara
import aesara.tensor as at

_state = dict(mode="real", probes=[], real=None, sweeps=2)


def install():
    import aehmc.nuts as an

    if _state["real"] is not None:
        return
    _state["real"] = an.new_kernel

    def new_kernel(srng, logprob_fn, *args, **kwargs):
        if _state["mode"] == "mh":
            return mh_kernel(srng, logprob_fn)
        if _state["mode"] == "probe":
            return probe_kernel(srng, logprob_fn)
        return _state["real"](srng, logprob_fn, *args, **kwargs)

    an.new_kernel = new_kernel


@contextlib.contextmanager
def kernel(mode, sweeps=2):
    old = _state["mode"], _state["sweeps"]
    _state["mode"], _state["sweeps"] = mode, sweeps
    _state["probes"].clear()
    try:
        yield _state["probes"]
    finally:
        _state["mode"], _state["sweeps"] = old


def mh_kernel(srng, logprob_fn):
    n = _state["sweeps"]

    def step(q, potential_energy, potential_energy_grad, step_size, inverse_mass_matrix):
        def one(q, lp):
            prop = q + step_size * at.sqrt(inverse_mass_matrix) * srng.normal(0.0, 1.0, size=q.shape)
            lp_prop = logprob_fn(prop)
            accept = at.log(srng.uniform(0.0, 1.0)) < lp_prop - lp
            return at.switch(accept, prop, q), at.switch(accept, lp_prop, lp)

        (qs, lps), updates = aesara.scan(one, outputs_info=[q, -potential_energy], n_steps=n)
        z = at.as_tensor(0.0)
        return (qs[-1], -lps[-1], potential_energy_grad, z, z, z, z), updates

    return step


def probe_kernel(srng, logprob_fn):
    def step(q, potential_energy, potential_energy_grad, step_size, inverse_mass_matrix):
        q_new = at.vector("vf_q_new")
        lp = logprob_fn(q_new)
        _state["probes"].append(dict(q=q, q_new=q_new, logprob=lp, logprob0=-potential_energy, grad0=potential_energy_grad))
        z = at.as_tensor(0.0)
        u = srng.uniform(0.0, 1.0)
        rng = u.owner.inputs[0]
        return (q_new, -lp, potential_energy_grad, z, z, z, z), {rng: u.owner.outputs[0]}

    return step
