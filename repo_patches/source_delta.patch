From 6b63ce5d47437041f680705f811651cfefebe321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 01/36] fix: don't let canonicalization rewrite
 SubsumingElemwise as a plain Elemwise

A SubsumingElemwise omits the constant arguments of the Elemwise it
represents, so rewrites like local_useless_elemwise, which treat it as an
Elemwise with the listed inputs, turned e.g. 2 * b into b.
---
 aemcmc/rewriting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..7910118 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -176,9 +176,11 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     return decorator
 
 
-class SubsumingElemwise(OpFromGraph, Elemwise):
+class SubsumingElemwise(OpFromGraph):
     r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments."""
 
+    __props__ = Elemwise.__props__
+
     def __init__(self, inputs, outputs, *args, **kwargs):
         # TODO: Mock the `Elemwise` interface just enough for our purposes
         self.elemwise_op = outputs[0].owner.op
@@ -375,7 +377,7 @@ sampler_ir_db.register(
 )
 
 
-@node_rewriter([Elemwise])
+@node_rewriter([SubsumingElemwise])
 def inline_SubsumingElemwise(fgraph, node):
     op = node.op
 
-- 
2.43.0


From 827d00d5547d5d1a8f23da4a05c460bc77cbe520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 02/36] fix: expand SubsumingElemwise without cloning the
 graphs of its inputs

clone_replace also clones the ancestors of the replacements, so the expanded
graph depended on copies of the model's random variables.
---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 7910118..060c133 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,7 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -387,11 +387,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # The inputs must be used as they are (i.e. not cloned), otherwise the
+    # expanded graph would refer to copies of the `RandomVariable`s in `fgraph`
+    memo = clone_get_equiv(
+        [],
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(zip(op.inner_inputs, node.inputs)),
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 572aa3a22b42e93d3d25a229488e261d08bd8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 03/36] fix: don't match a SubsumingElemwise with subsumed
 constants as if it had none

E.g. 2 * lambda * tau was recognized as the horseshoe product lambda * tau.
---
 aemcmc/rewriting.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 060c133..8c035d9 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -190,6 +190,9 @@ class SubsumingElemwise(OpFromGraph):
         # self.destroy_map = self.elemwise_op.destroy_map
         self.ufunc = None
         self.nfunc = None
+        # Constant arguments are part of the inner-graph, but they are not
+        # inputs of this `Op`
+        self.has_constants = len(outputs[0].owner.inputs) != len(inputs)
 
         OpFromGraph.__init__(self, inputs, outputs, *args, **kwargs)
 
@@ -227,6 +230,7 @@ class SubsumingElemwise(OpFromGraph):
         # res.destroy_map = self.destroy_map
         res.ufunc = self.ufunc
         res.nfunc = self.nfunc
+        res.has_constants = self.has_constants
         return res
 
     def __str__(self):
@@ -243,7 +247,10 @@ class SubsumingElemwise(OpFromGraph):
 
 
 def _unify_SubsumingElemwise(u: Elemwise, v: SubsumingElemwise, s: Mapping):
-    yield _unify(u, v.elemwise_op, s)
+    if v.has_constants:
+        yield False
+    else:
+        yield _unify(u, v.elemwise_op, s)
 
 
 _unify.add(
@@ -261,6 +268,10 @@ _unify.add(
 
 
 def car_SubsumingElemwise(x):
+    if x.has_constants:
+        # The inputs given to `x` aren't all of the arguments of its `Elemwise`,
+        # so applications of the two are not interchangeable
+        return type(x)
     return type(x.elemwise_op)
 
 
-- 
2.43.0


From 744a91db24e565b2ac75388f13c77f00c3ec48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 04/36] fix: declare SamplingSteps as non-differentiable

NUTS steps condition on the results of other sampling steps, and computing the
gradient through them raised a TypeError when building the lop of a step.
---
 aemcmc/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 67a05d6..796ae1e 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -19,6 +19,11 @@ class SamplingStep(OpFromGraph):
     def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
         super().__init__(inputs, outputs, inline=True)
 
+    def connection_pattern(self, node):
+        # Sampling steps are not differentiable; their results are values that
+        # other steps (e.g. gradient-based ones) condition on.
+        return [[False] * len(node.outputs) for _ in node.inputs]
+
 
 @dataclass(frozen=True)
 class Sampler:
-- 
2.43.0


From 8fe3657d26a794ebe2dc10494c618a520035aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 05/36] fix: use the rate parameter in the gamma-Poisson
 posterior

GammaRV nodes hold a scale parameter, so the posterior's rate was computed as
one plus the prior's scale.
---
 aemcmc/conjugates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..2bb4cf0 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -52,7 +52,9 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    # NOTE: `GammaRV`s hold a scale parameter, while `at.random.gamma` is given
+    # the rate
+    new_beta_et = etuple(etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1)
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From 1b3605f70dc2e4bb310aab32f6848f804cb88326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 06/36] fix: sum the sufficient statistics over observations
 that share a parameter

The conjugate posteriors of e.g. a scalar parameter with a vector of
observations were computed as if each observation had its own parameter.
---
 aemcmc/conjugates.py | 77 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2bb4cf0..770b78e 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -14,6 +14,49 @@ from aemcmc.rewriting import sampler_finder, sampler_finder_db
 
 if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
+    from aesara.tensor.var import TensorVariable
+
+
+def sum_over_observations(
+    stat: "TensorVariable", obs_rv: "TensorVariable", param_rv: "TensorVariable"
+) -> "TensorVariable":
+    """Sum a statistic over the observations that share the same parameter.
+
+    Parameters
+    ----------
+    stat
+        A statistic that broadcasts to the shape of `obs_rv`.
+    obs_rv
+        The observed variable.
+    param_rv
+        The parameter of `obs_rv`.
+
+    Returns
+    -------
+    The statistic summed over the dimensions along which `param_rv` is
+    broadcasted against `obs_rv`.
+
+    """
+    stat = at.as_tensor(stat)
+    n_new_dims = obs_rv.type.ndim - param_rv.type.ndim
+    # Dimensions that are broadcasted, but present in the parameter
+    kept_axes = [
+        i + n_new_dims
+        for i, (param_bcast, obs_bcast) in enumerate(
+            zip(param_rv.type.broadcastable, obs_rv.type.broadcastable[n_new_dims:])
+        )
+        if param_bcast and not obs_bcast
+    ]
+
+    if n_new_dims == 0 and not kept_axes:
+        return stat
+
+    stat = at.broadcast_to(stat, obs_rv.shape)
+
+    if kept_axes:
+        stat = stat.sum(axis=kept_axes, keepdims=True)
+
+    return stat.sum(axis=list(range(n_new_dims)))
 
 
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
@@ -48,13 +91,18 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
     z_et = etuple(
         etuplize(at.random.gamma), z_rng_lv, z_size_lv, z_type_idx_lv, alpha_lv, beta_lv
     )
-    Y_et = etuple(etuplize(at.random.poisson), var(), var(), var(), z_et)
+    z_lv = var()
+    Y_et = etuple(etuplize(at.random.poisson), var(), var(), var(), z_lv)
 
-    # Posterior distribution for p
-    new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
+    # Posterior distribution for z
+    y_sum_et = etuple(sum_over_observations, observed_rv_expr, observed_rv_expr, z_lv)
+    n_obs_et = etuple(sum_over_observations, 1, observed_rv_expr, z_lv)
+    new_alpha_et = etuple(etuplize(at.add), alpha_lv, y_sum_et)
     # NOTE: `GammaRV`s hold a scale parameter, while `at.random.gamma` is given
     # the rate
-    new_beta_et = etuple(etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1)
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), n_obs_et
+    )
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
@@ -65,6 +113,7 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     return lall(
         eq(observed_rv_expr, Y_et),
+        eq(z_lv, z_et),
         eq(posterior_expr, z_posterior_et),
     )
 
@@ -122,12 +171,15 @@ def beta_binomial_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
         etuplize(at.random.beta), p_rng_lv, p_size_lv, p_type_idx_lv, alpha_lv, beta_lv
     )
     n_lv = var()
-    Y_et = etuple(etuplize(at.random.binomial), var(), var(), var(), n_lv, p_et)
+    p_lv = var()
+    Y_et = etuple(etuplize(at.random.binomial), var(), var(), var(), n_lv, p_lv)
 
     # Posterior distribution for p
-    new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
+    y_sum_et = etuple(sum_over_observations, observed_rv_expr, observed_rv_expr, p_lv)
+    n_sum_et = etuple(sum_over_observations, n_lv, observed_rv_expr, p_lv)
+    new_alpha_et = etuple(etuplize(at.add), alpha_lv, y_sum_et)
     new_beta_et = etuple(
-        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_lv), observed_rv_expr
+        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_sum_et), y_sum_et
     )
     p_posterior_et = etuple(
         partial(srng.gen, at.random.beta),
@@ -139,6 +191,7 @@ def beta_binomial_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     return lall(
         eq(observed_rv_expr, Y_et),
+        eq(p_lv, p_et),
         eq(posterior_expr, p_posterior_et),
     )
 
@@ -200,12 +253,15 @@ def beta_negative_binomial_conjugateo(
         etuplize(at.random.beta), p_rng_lv, p_size_lv, p_type_idx_lv, alpha_lv, beta_lv
     )
     n_lv = var()  # success
+    p_lv = var()
     Y_et = etuple(
-        etuplize(at.random.negative_binomial), var(), var(), var(), n_lv, p_et
+        etuplize(at.random.negative_binomial), var(), var(), var(), n_lv, p_lv
     )
 
-    new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, n_lv)
+    y_sum_et = etuple(sum_over_observations, observed_rv_expr, observed_rv_expr, p_lv)
+    n_sum_et = etuple(sum_over_observations, n_lv, observed_rv_expr, p_lv)
+    new_alpha_et = etuple(etuplize(at.add), alpha_lv, y_sum_et)
+    new_beta_et = etuple(etuplize(at.add), beta_lv, n_sum_et)
     p_posterior_et = etuple(
         partial(srng.gen, at.random.beta),
         new_alpha_et,
@@ -216,6 +272,7 @@ def beta_negative_binomial_conjugateo(
 
     return lall(
         eq(observed_rv_expr, Y_et),
+        eq(p_lv, p_et),
         eq(posterior_expr, p_posterior_et),
     )
 
-- 
2.43.0


From 26a14d208ad26b32406e4b762d0edfbdfed5b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 07/36] fix: use scale parameters for the exponentials in
 horseshoe_posterior

The exponential draws of the shrinkage parameters' Gibbs updates were given
rates, but srng.exponential takes scales.
---
 aemcmc/gibbs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..b498a61 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,14 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    # NOTE: `srng.exponential` takes a scale parameter (i.e. the inverse rate)
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From fa064ab19133c4a6a6f410d823f2f31830348d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 08/36] fix: use prior precisions in the normal regression
 posteriors

lmbdatau_inv holds inverse standard deviations, so the precision matrix of the
coefficients needs their squares.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index b498a61..716f590 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + lmbdatau_inv**2,
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From 8dff7033c61bdb28efa837f3aa2bada43a342605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 09/36] fix: require every element of the logistic link's
 factor to be minus one

Any factor with a single -1 element was accepted, and symbolic factors raised
an AttributeError.
---
 aemcmc/gibbs.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 716f590..31744e9 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,11 +2,14 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
-from aesara.graph.basic import Variable
+import numpy as np
+from aesara.graph.basic import Constant, Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
 from aesara.ifelse import ifelse
+from aesara.tensor.basic import get_scalar_constant_value
+from aesara.tensor.exceptions import NotScalarConstantError
 from aesara.tensor.math import Dot
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.basic import BernoulliRV, NegBinomialRV, NormalRV
@@ -27,6 +30,19 @@ gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
 
 
+def is_constant(x, value: float) -> bool:
+    """Determine whether or not every element of a graph is equal to a given constant."""
+    x = eval_if_etuple(x)
+
+    if isinstance(x, Constant):
+        return bool(np.all(x.data == value))
+
+    try:
+        return bool(get_scalar_constant_value(x) == value)
+    except NotScalarConstantError:
+        return False
+
+
 def normal_regression_overdetermined_posterior(
     srng: RandomStream,
     omega: TensorVariable,
@@ -354,7 +370,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant(s[neg_one_lv], -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -670,7 +686,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant(s[neg_one_lv], -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
-- 
2.43.0


From 6bcb376f7953467ec3b33e3e1c6724cd4e53ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 10/36] fix: only use the logistic regression Gibbs kernels
 with zero-mean normal priors

The regression finders didn't look at the prior of the coefficients, so e.g. a
Laplace prior's scale was used as the std. dev. of a zero-mean normal.
---
 aemcmc/gibbs.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 31744e9..53a7239 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -339,6 +339,26 @@ sigmoid_dot_pattern = etuple(
     etuple(etuplize(at.mul), neg_one_lv, etuple(etuple(Dot), X_lv, beta_lv)),
 )
 
+
+def normal_prior_std(
+    y: TensorVariable, X: TensorVariable, beta: TensorVariable
+) -> TensorVariable:
+    """Get the std. dev. of the zero-mean normal prior of a regression's coefficients."""
+    if (
+        beta.owner is None
+        or not isinstance(beta.owner.op, NormalRV)
+        or not is_constant(beta.owner.inputs[3], 0)
+    ):
+        raise ValueError(
+            "The regression parameter does not have a zero-mean normal prior."
+        )
+
+    if X.type.ndim != 2 or beta.type.ndim != 1 or y.type.ndim != 1:
+        raise ValueError("Not the regression of a vector on a design matrix.")
+
+    return beta.owner.inputs[4]
+
+
 a_lv = var()
 b_lv = var()
 gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_lv)
@@ -619,10 +639,10 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     try:
         X, h, beta_rv = nbinom_sigmoid_dot_match(node.outputs[1])
+        beta_std = normal_prior_std(y, X, beta_rv)
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
@@ -767,10 +787,10 @@ def bern_logistic_finder(fgraph, node, srng):
 
     try:
         X, beta_rv = bern_sigmoid_dot_match(node.outputs[1])
+        beta_std = normal_prior_std(y, X, beta_rv)
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
 
     # Build the `Op` corresponding to the sampling step
-- 
2.43.0


From b54872feecf12a6eb9d464759c638c87d7008201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 11/36] fix: only match horseshoe priors with zero mean and
 standard half-Cauchy scales

The Gibbs updates of the shrinkage parameters are only valid for lambda and tau
with C+(0, 1) priors and one lambda per coefficient.
---
 aemcmc/gibbs.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 53a7239..b63cdff 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -166,6 +166,9 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
     if s is False:
         raise ValueError("Not a horseshoe prior.")
 
+    if not is_constant(s[zero_lv], 0):
+        raise ValueError("Not a horseshoe prior. The mean must be zero.")
+
     halfcauchy_1 = eval_if_etuple(s[halfcauchy_1_lv])
     if halfcauchy_1.owner is None or not isinstance(
         halfcauchy_1.owner.op, type(at.random.halfcauchy)
@@ -185,10 +188,10 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
-    if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
+    if halfcauchy_1.type.ndim == 0 or all(d == 1 for d in halfcauchy_1.type.shape):
         lmbda_rv = halfcauchy_2
         tau_rv = halfcauchy_1
-    elif halfcauchy_2.type.ndim == 0 or all(s == 1 for s in halfcauchy_2.type.shape):
+    elif halfcauchy_2.type.ndim == 0 or all(d == 1 for d in halfcauchy_2.type.shape):
         lmbda_rv = halfcauchy_1
         tau_rv = halfcauchy_2
     else:
@@ -197,6 +200,24 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    for halfcauchy_rv in (lmbda_rv, tau_rv):
+        loc, scale = halfcauchy_rv.owner.inputs[3:5]
+        if not (is_constant(loc, 0) and is_constant(scale, 1)):
+            raise ValueError(
+                "Not a horseshoe prior. The shrinkage parameters "
+                + "must be standard half-Cauchy distributed."
+            )
+
+    if (
+        graph.type.ndim != 1
+        or tau_rv.type.ndim > 1
+        or lmbda_rv.type.broadcastable != graph.type.broadcastable
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. There must be one local shrinkage "
+            + "parameter for each element of a vector."
+        )
+
     return (lmbda_rv, tau_rv)
 
 
-- 
2.43.0


From 2e7ba984e21591eb450a2981448508a7c1b54153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 12/36] fix: associate the dispersion kernel's RNG updates with
 the right RNGs

The order of an OpFromGraph's shared inputs isn't the order of its outputs, so
the updates of the two RNGs were swapped.
---
 aemcmc/gibbs.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index b63cdff..0f4250d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -689,21 +689,17 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    rng_updates = {h_rng: h_rng.default_update, **updates}
 
-    outputs = [h_posterior] + update_outputs
+    outputs = [h_posterior] + list(rng_updates.values())
     inputs = remove_constants([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    updates = dict(zip(rng_updates.keys(), h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
-- 
2.43.0


From 576ba4db79dd1ad64d298d4c115e54f7bec69f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 13/36] fix: condition the dispersion step on the sampler's
 value of beta

The step was tied to the beta draw made by nbinom_logistic_finder's own kernel,
which isn't the chain's value when beta gets another step.
---
 aemcmc/gibbs.py | 52 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 0f4250d..126193d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -664,44 +664,48 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
-    beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
-
-    # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, h, y])
-    gibbs = NBRegressionGibbsKernel(inputs, outputs)
-
-    beta_posterior = gibbs(*inputs)
-    beta_posterior.name = f"{beta_rv.name or 'beta'}_posterior"
-
     res: List[
         Tuple[TensorVariable, TensorVariable, Optional[Mapping[Variable, Variable]]]
-    ] = [(beta_rv, beta_posterior, None)]
+    ] = []
 
     # TODO: Should this be in a separate rewriter?
     try:
         a, b = gamma_match(h)
     except ValueError:  # pragma: no cover
-        return res
+        pass
+    else:
+        # Each step is given in terms of the model's variables; it's up to the
+        # sampler to decide which of their values are used
+        p = at.sigmoid(-X @ beta_rv)
 
-    p = at.sigmoid(-X @ beta_posterior)
+        h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
-    h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
+        # Build the `Op` corresponding to the sampling step
+        h_rng = h_posterior.owner.inputs[0]
+        rng_updates = {h_rng: h_rng.default_update, **updates}
 
-    # Build the `Op` corresponding to the sampling step
-    h_rng = h_posterior.owner.inputs[0]
-    rng_updates = {h_rng: h_rng.default_update, **updates}
+        outputs = [h_posterior] + list(rng_updates.values())
+        inputs = remove_constants([h, p, a, b, y])
+        gibbs = DispersionGibbsKernel(inputs, outputs)
+
+        h_posterior = gibbs(*inputs)
+        h_posterior.name = f"{h.name or 'h'}_posterior"
+
+        updates = dict(zip(rng_updates.keys(), h_posterior.owner.outputs[1:]))
 
-    outputs = [h_posterior] + list(rng_updates.values())
-    inputs = remove_constants([h, p, a, b, y])
-    gibbs = DispersionGibbsKernel(inputs, outputs)
+        res.append((h, h_posterior, updates))
 
-    h_posterior = gibbs(*inputs)
-    h_posterior.name = f"{h.name or 'h'}_posterior"
+    beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
-    updates = dict(zip(rng_updates.keys(), h_posterior.owner.outputs[1:]))
+    # Build the `Op` corresponding to the sampling step
+    outputs = [beta_posterior]
+    inputs = remove_constants([beta_rv, beta_std, X, h, y])
+    gibbs = NBRegressionGibbsKernel(inputs, outputs)
+
+    beta_posterior = gibbs(*inputs)
+    beta_posterior.name = f"{beta_rv.name or 'beta'}_posterior"
 
-    res.append((h, h_posterior, updates))
+    res.append((beta_rv, beta_posterior, None))
 
     return res
 
-- 
2.43.0


From 027cf5ac82b099e045f1d82482d94cb588e35e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 14/36] fix: support dispersion parameters that aren't scalar
 gamma variables

Constant and non-random dispersion parameters made the whole negative-binomial
finder fail, and its dispersion step was only valid for a scalar.
---
 aemcmc/gibbs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 126193d..779a3d7 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -386,6 +386,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
@@ -670,6 +673,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     # TODO: Should this be in a separate rewriter?
     try:
+        if h.type.ndim != 0:
+            raise ValueError("The dispersion parameter must be a scalar.")
+
         a, b = gamma_match(h)
     except ValueError:  # pragma: no cover
         pass
-- 
2.43.0


From e83647b95df16753562d1d3c933e45c8685729c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 15/36] fix: allow scalar scales in the normal regression
 posteriors

The coefficients' prior in e.g. normal(0, 1, size=p) has a scalar std. dev.,
which multivariate_normal_cong2017 can't use as the diagonal of a matrix.
---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 779a3d7..6ad5ec0 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -138,6 +138,9 @@ def normal_regression_posterior(
     A sample from :math:`\beta \mid z`.
 
     """
+    # There must be one value for each coefficient
+    lmbdatau_inv = at.broadcast_to(lmbdatau_inv, (X.shape[1],))
+
     beta_posterior = ifelse(
         X.shape[1] > X.shape[0],
         normal_regression_underdetermined_posterior(srng, omega, lmbdatau_inv, X, z),
-- 
2.43.0


From 5576c97979bd29468a04e0ae40dbaeb872363664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 16/36] fix: allow shared variables in the graphs given to the
 finders

Shared variables (e.g. a shared design matrix) can't be explicit inputs of an
OpFromGraph, so finders and rewrites that used them raised a TypeError.
---
 aemcmc/gibbs.py     | 10 +++++-----
 aemcmc/rewriting.py |  6 ++++++
 aemcmc/utils.py     | 12 ++++++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 6ad5ec0..233332d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -24,7 +24,7 @@ from aemcmc.dists import (
 )
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
-from aemcmc.utils import remove_constants
+from aemcmc.utils import get_inner_graph_inputs
 
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
@@ -341,7 +341,7 @@ def normal_horseshoe_finder(fgraph, node, srng):
 
     # Build an `Op` for the sampling kernel
     outputs = [lambda_posterior, tau_posterior]
-    inputs = remove_constants([rv_var, lambda2, tau2])
+    inputs = get_inner_graph_inputs([rv_var, lambda2, tau2])
     gibbs = HorseshoeGibbsKernel(inputs, outputs)
 
     lambda_posterior, tau_posterior = gibbs(*inputs)
@@ -694,7 +694,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
         rng_updates = {h_rng: h_rng.default_update, **updates}
 
         outputs = [h_posterior] + list(rng_updates.values())
-        inputs = remove_constants([h, p, a, b, y])
+        inputs = get_inner_graph_inputs([h, p, a, b, y])
         gibbs = DispersionGibbsKernel(inputs, outputs)
 
         h_posterior = gibbs(*inputs)
@@ -708,7 +708,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, h, y])
+    inputs = get_inner_graph_inputs([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior = gibbs(*inputs)
@@ -825,7 +825,7 @@ def bern_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, y])
+    inputs = get_inner_graph_inputs([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior: TensorVariable = gibbs(*inputs)  # type: ignore
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 8c035d9..ccee432 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
@@ -373,6 +374,11 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
     used_inputs = remove_constants(new_inputs)
+
+    if any(isinstance(i, SharedVariable) for i in used_inputs):
+        # Shared variables can't be explicit inputs of an `OpFromGraph`
+        return None
+
     new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
 
     new_out = new_op(*used_inputs)
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..2ff7da6 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -80,6 +80,18 @@ def remove_constants(inputs):
     return res
 
 
+def get_inner_graph_inputs(inputs):
+    """Get the unique variables that need to be inputs of an `OpFromGraph`.
+
+    Constants and shared variables are implicit inputs of an `OpFromGraph`.
+    """
+    return [
+        inp
+        for inp in dict.fromkeys(remove_constants(inputs))
+        if not isinstance(inp, SharedVariable)
+    ]
+
+
 def get_rv_updates(
     srng: "RandomStream", *rvs: TensorVariable
 ) -> Dict[SharedVariable, "Variable"]:
-- 
2.43.0


From 40ca0b2d40bf702af28c56e867f47390ba4bcfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 17/36] fix: don't use a posterior given one variable for a
 parameter of several

The finders derive posteriors given a single observed variable, but the full
conditional of a parameter involves everything that depends on it.
---
 aemcmc/rewriting.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index ccee432..e4f06c2 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -16,6 +16,7 @@ from aesara.tensor.elemwise import DimShuffle, Elemwise
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.rewriting.shape import ShapeFeature
+from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 from cons.core import _car
 from unification.core import _unify
@@ -125,6 +126,36 @@ class SamplerTracker(Feature):
         fgraph.sampler_mappings = self
 
 
+def is_used_once(fgraph: FunctionGraph, rv: TensorVariable, node: Apply) -> bool:
+    """Determine whether or not a random variable is only used as a parameter of `node`, and only once.
+
+    The posterior of a random variable given the output of `node` alone isn't
+    its full conditional when the random variable also appears somewhere else
+    in the model.
+
+    """
+    uses: Dict[Variable, int] = {}
+
+    def n_uses(var: Variable) -> int:
+        """Count the uses of `rv` in `var` that aren't made by another random variable."""
+        if var not in uses:
+            if var is rv:
+                uses[var] = 1
+            elif var.owner is None or isinstance(
+                var.owner.op, (RandomVariable, Shape, Shape_i)
+            ):
+                uses[var] = 0
+            else:
+                uses[var] = sum(n_uses(inp) for inp in var.owner.inputs)
+        return uses[var]
+
+    return all(
+        sum(n_uses(inp) for inp in rv_node.inputs) == (1 if rv_node is node else 0)
+        for rv_node in fgraph.apply_nodes
+        if isinstance(rv_node.op, RandomVariable)
+    )
+
+
 def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     """Construct a `NodeRewriter` that identifies sample steps.
 
@@ -164,7 +195,17 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
             if not rvs_and_posteriors:
                 return None  # pragma: no cover
 
+            # Posteriors produced by the same kernel are only valid together
+            rejected_nodes = {
+                posterior_rv.owner
+                for rv, posterior_rv, _ in rvs_and_posteriors
+                if not is_used_once(fgraph, rv, node)
+            }
+
             for rv, posterior_rv, updates in rvs_and_posteriors:
+                if posterior_rv.owner in rejected_nodes:
+                    continue
+
                 sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                     (f.__name__, posterior_rv, updates)
                 )
-- 
2.43.0


From 8e05d9e11a2e5bf36b1a7e4a9f53a799e1f37e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 18/36] fix: don't use kernels that also update observed
 variables

---
 aemcmc/basic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..334d253 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -45,6 +45,14 @@ def construct_sampler(
 
     discovered_samplers = fgraph.sampler_mappings.rvs_to_samplers
 
+    # Kernels that update observed variables can't be used, because the values
+    # they produce for the other variables are conditional on those updates
+    observed_kernels = {
+        step.owner
+        for rv in obs_rvs_to_values
+        for _, step, _ in discovered_samplers.get(rv, ())
+    }
+
     rvs_to_init_vals = {rv: rv.clone() for rv in random_vars}
     posterior_sample_steps = rvs_to_init_vals.copy()
     # Replace occurrences of observed variables with their observed values
@@ -60,7 +68,11 @@ def construct_sampler(
         if rv in obs_rvs_to_values:
             continue
 
-        rv_steps = discovered_samplers.get(rv)
+        rv_steps = [
+            rv_step
+            for rv_step in discovered_samplers.get(rv, ())
+            if rv_step[1].owner not in observed_kernels
+        ]
 
         if not rv_steps:
             rvs_without_samplers.add(rv)
-- 
2.43.0


From a909e1382beb1ddd2b94eb6d0983009520f942fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 19/36] fix: use the values of the other variables in the NUTS
 transforms

---
 aemcmc/nuts.py | 62 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..930e112 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
@@ -12,7 +12,7 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs, io_toposort
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -80,13 +80,16 @@ def step(
     # Get the initial values for the random variables that are assigned this
     # sampling step.
     initial_values = to_sample_rvs.values()
+    rvs_to_initial_values = {**realized_rvs_to_values, **to_sample_rvs}
 
     # Algorithms in the HMC family can more easily explore the posterior distribution
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(
+            rv, vv, transforms[rv], get_transform_inputs(rv, rvs_to_initial_values)
+        )
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -133,10 +136,22 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+
+    # The transforms can depend on the values of the other random variables, so
+    # we need to start with the updated values that don't depend on the others.
+    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    rvs_to_values = dict(realized_rvs_to_values)
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in rvs_to_placeholders:
+                rvs_to_values[rv] = transform_backward(
+                    rv,
+                    transformed_params[rvs_to_placeholders[rv]],
+                    transforms[rv],
+                    get_transform_inputs(rv, rvs_to_values),
+                )
+
+    results = {rv: rvs_to_values[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -183,10 +198,30 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def get_transform_inputs(
+    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
+) -> List[TensorVariable]:
+    """Get the inputs of a random variable given the values of the others."""
+    inputs = rv.owner.inputs
+    memo = clone_get_equiv(
+        [],
+        inputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo={k: v for k, v in rvs_to_values.items() if k is not rv},
+    )
+    return [memo[i] for i in inputs]
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    inputs: Optional[List[TensorVariable]] = None,
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *(rv.owner.inputs if inputs is None else inputs))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -194,10 +229,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    inputs: Optional[List[TensorVariable]] = None,
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *(rv.owner.inputs if inputs is None else inputs))
         return res
     else:
         return vv
-- 
2.43.0


From c44aa94bc12dc0adcbafbf1b6178ac97adc5f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 20/36] fix: sample variables with NUTS in a deterministic
 order

---
 aemcmc/basic.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 334d253..7e4cbc0 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -62,7 +62,7 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -75,7 +75,7 @@ def construct_sampler(
         ]
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -115,9 +115,7 @@ def construct_sampler(
 
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
-        to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
-        }
+        to_sample_rvs = {rv: posterior_sample_steps[rv] for rv in rvs_without_samplers}
         realized_values = {
             rv: vv
             for rv, vv in posterior_sample_steps.items()
-- 
2.43.0


From 17dd99796570170f043e4edd9bc882df5680817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 21/36] fix: return the sampling steps in scan order

---
 aemcmc/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 7e4cbc0..0a2edc1 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -129,10 +129,12 @@ def construct_sampler(
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
+    # The NUTS sampling step comes last in the scan order
+    scan_order = [rv for rv in random_vars if rv not in rvs_without_samplers]
+    scan_order += rvs_without_samplers
+
     sampling_steps = {
-        new_to_old_rvs[rv]: step
-        for rv, step in posterior_sample_steps.items()
-        if rv not in obs_rvs_to_values
+        new_to_old_rvs[rv]: posterior_sample_steps[rv] for rv in scan_order
     }
 
     return Sampler(sampling_steps, posterior_updates, parameters), {
-- 
2.43.0


From 40393a66866956e24b43dfabb70481966f5387f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 22/36] fix: draw one standard variate per element in
 location_scale_transform

---
 aemcmc/transforms.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..a6071ad 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -13,6 +13,20 @@ fact(location_scale_family, at.random.normal)
 fact(location_scale_family, at.random.t)
 
 
+def get_size(size, *params):
+    """Get the `size` of the scalar random variables with the given `size` and parameters.
+
+    When `size` isn't specified, it is determined by the parameters.
+
+    """
+    size = at.as_tensor(size)
+
+    if size.type.shape == (0,):
+        return at.broadcast_shape(*params)
+
+    return size
+
+
 def location_scale_transform(in_expr, out_expr):
     r"""Produce a goal that represents the action of lifting and sinking
     the scale and location parameters of distributions in the location-scale
@@ -61,7 +75,9 @@ def location_scale_transform(in_expr, out_expr):
                 0,
                 1,
                 rng=rng_lv,
-                size=size_lv,
+                # The standard variates need to have the shape of the original
+                # ones, otherwise they would be shared
+                size=etuple(get_size, size_lv, mu_lv, sd_lv),
                 dtype=type_idx_lv,
             ),
         ),
-- 
2.43.0


From 32326fd8743b6111494cb98bf2a19664a2e678df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 23/36] fix: broadcast the Polya-Gamma parameters before
 drawing

---
 aemcmc/dists.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..08b0efb 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,6 +21,10 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
+        if size is None:
+            # `random_polyagamma` doesn't broadcast arrays of length one correctly
+            # when the size is left unspecified
+            size = np.broadcast(h, z).shape or None
         return random_polyagamma(h, z, size=size, random_state=bg).astype(
             aesara.config.floatX
         )
-- 
2.43.0


From 603ef778f7fd6c147d6231f4bb7f65322b50892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 24/36] fix: allow symbolic transition matrices in ffbs_step

---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..9d5a2b5 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -64,6 +64,7 @@ def ffbs_step(
     """
 
     gamma_0 = at.as_tensor(gamma_0)
+    Gammas = at.as_tensor(Gammas)
     log_lik = at.as_tensor(log_lik)
 
     # Number of observations
@@ -78,7 +79,7 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From d6521734cfb1d2497e7d2a74511a81146a994f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 25/36] fix: use the failures in the logistic regression Gibbs
 step

---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 233332d..0506bf9 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -821,7 +821,9 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # The success probability in the matched models is `sigmoid(-X @ beta)`, so
+    # it's the failures that have a probability equal to `sigmoid(X @ beta)`
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, 1 - y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From db72b15efe996702f565109656bfd6e8ececa7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 26/36] fix: associate the NUTS kernel's updates with the right
 shared variables

---
 aemcmc/nuts.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 930e112..60aac8c 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -180,11 +180,7 @@ def construct_sampler(
     posterior = nuts_op(*inputs)
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From fa8d817b524759abb66f5f0f34349dcc8cdf7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 27/36] fix: don't let joint_logprob change the graphs used by
 the NUTS transforms

---
 aemcmc/nuts.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 60aac8c..2ab7d6d 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -97,10 +97,17 @@ def step(
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
     # the NUTS kernel.
+    # This is done with a clone of the model, because `joint_logprob` changes the
+    # graphs that it's given in-place.
+    memo = clone_get_equiv(
+        [], list(rvs_to_initial_values), copy_inputs=False, copy_orphans=False
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *(memo[rv] for rv in to_sample_rvs),
+        realized={memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {memo[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
-- 
2.43.0


From cf29da252572cc6d81c078313a4b9f079cf2ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 28/36] fix: use the values of the other steps as inputs of the
 NUTS kernel

---
 aemcmc/nuts.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 2ab7d6d..c127d23 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -172,6 +172,16 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
+    # The realized values are inputs of the kernel; otherwise, the steps that
+    # produce them would be part of (and repeated within) this one
+    inputs_to_values = {
+        vv.clone(): vv for vv in realized_rvs_to_values.values() if vv.owner is not None
+    }
+    values_to_inputs = {vv: var_in for var_in, vv in inputs_to_values.items()}
+    realized_rvs_to_values = {
+        rv: values_to_inputs.get(vv, vv) for rv, vv in realized_rvs_to_values.items()
+    }
+
     results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
 
     # Build an `Op` that represents the NUTS sampling step
@@ -184,7 +194,7 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    posterior = nuts_op(*(inputs_to_values.get(var_in, var_in) for var_in in inputs))
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
     updates = dict(zip(updates.keys(), posterior[len(results) :]))
-- 
2.43.0


From 9cae20ac2bb590feb82705535d1d252db8cb286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 29/36] fix: don't clone the model inputs used by the NUTS
 transforms

---
 aemcmc/nuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index c127d23..bdbb01b 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -217,7 +217,7 @@ def get_transform_inputs(
     """Get the inputs of a random variable given the values of the others."""
     inputs = rv.owner.inputs
     memo = clone_get_equiv(
-        [],
+        list(graph_inputs(inputs)),
         inputs,
         copy_inputs=False,
         copy_orphans=False,
-- 
2.43.0


From d3af94bfcda28b02e88781f28d3bb3775f2f6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 30/36] fix: don't change the model's graph when its variables
 are replaced in a step

---
 aemcmc/basic.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 0a2edc1..a4993f2 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
 from typing import Dict, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -63,6 +63,7 @@ def construct_sampler(
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers = []
+    model_nodes = set(fgraph.apply_nodes)
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -94,8 +95,28 @@ def construct_sampler(
             copy_orphans=False,
         )
 
-        # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
+        # Update the other sampled random variables in this step's graph.
+        # The parts of the model's graph that the step uses are replaced by
+        # clones, because they're also used by the steps that follow.
+        model_inputs = [
+            (node, i, inp)
+            for node in sfgraph.toposort()
+            if node not in model_nodes
+            for i, inp in enumerate(node.inputs)
+            if inp.owner in model_nodes
+        ]
+        updated_vars = clone_get_equiv(
+            list(posterior_sample_steps),
+            [inp for _, _, inp in model_inputs],
+            copy_inputs=False,
+            copy_orphans=False,
+            memo={
+                var: var.type.filter_variable(val)
+                for var, val in posterior_sample_steps.items()
+            },
+        )
+        for node, i, inp in model_inputs:
+            sfgraph.change_node_input(node, i, updated_vars[inp], import_missing=True)
 
         expand_subsumptions.rewrite(sfgraph)
 
-- 
2.43.0


From 10600851c9a16ac3aa261640f536ce90fa447f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 31/36] fix: keep the shape of inverse gammas with arrays of
 ones as shape parameters

---
 aemcmc/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index a6071ad..8044098 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -115,22 +115,25 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
         exponential distribution.
 
     """
-    c_lv = var()
+    a_lv, c_lv = var(), var()
     rng_lv, size_lv, dtype_lv = var(), var(), var()
 
     invgamma_et = etuple(
-        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, at.as_tensor(1.0), c_lv
+        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, a_lv, c_lv
     )
 
     exponential_et = etuple(
         etuplize(at.random.exponential),
         c_lv,
         rng=rng_lv,
-        size=size_lv,
+        # The shape parameter can be an array of ones
+        size=etuple(get_size, size_lv, a_lv, c_lv),
         dtype=dtype_lv,
     )
     invexponential_et = etuple(at.true_divide, at.as_tensor(1.0), exponential_et)
 
     return lall(
-        eq(invgamma_expr, invgamma_et), eq(invexponential_expr, invexponential_et)
+        eq(invgamma_expr, invgamma_et),
+        eq(a_lv, at.as_tensor(1.0)),
+        eq(invexponential_expr, invexponential_et),
     )
-- 
2.43.0


From a510c9f6573c8808d64ff398b0206f5290213e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 32/36] fix: reject model descriptions in which two variables
 share a value

Otherwise, values_to_rvs isn't the inverse of rvs_to_values.
---
 aemcmc/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index 2ff7da6..967371a 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -38,6 +38,9 @@ class ModelInfo:
             "values_to_rvs", {v: k for k, v in self.rvs_to_values.items()}
         )
 
+        if len(self.values_to_rvs) != len(self.rvs_to_values):
+            raise ValueError("All variables in the model must have distinct values")
+
         all_rvs = set(self.observed_rvs)
         all_rvs.update(self.rvs_to_values.keys())
 
-- 
2.43.0


From bdb0e4f1befe968836d59eb1549c0438defe7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 33/36] fix: recognise a horseshoe prior of a single
 coefficient in either order

---
 aemcmc/gibbs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 0506bf9..03396ea 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -191,6 +191,11 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
+    # A scalar is always the global shrinkage parameter: the vector of local
+    # shrinkage parameters may have a single element
+    if halfcauchy_2.type.ndim == 0:
+        halfcauchy_1, halfcauchy_2 = halfcauchy_2, halfcauchy_1
+
     if halfcauchy_1.type.ndim == 0 or all(d == 1 for d in halfcauchy_1.type.shape):
         lmbda_rv = halfcauchy_2
         tau_rv = halfcauchy_1
-- 
2.43.0


From a77831eb004e7fc6ede88f9bbeb9bb06e370291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 34/36] fix: Give regression coefficients' steps the type of
 the coefficients

The steps are double-precision, because the counts are integers, so that in
single precision their results couldn't be used by other steps nor as the next
iteration's values.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 03396ea..bca2cc7 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -712,7 +712,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [beta_posterior.astype(beta_rv.type.dtype)]
     inputs = get_inner_graph_inputs([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
@@ -831,7 +831,7 @@ def bern_logistic_finder(fgraph, node, srng):
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, 1 - y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [beta_posterior.astype(beta_rv.type.dtype)]
     inputs = get_inner_graph_inputs([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
-- 
2.43.0


From 8d7d37274dbf8df87f0a062a4d1bb172862ebab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 35/36] fix: Let FFBS's arguments have different floating-point
 types

The type of the forward probabilities has to be the same at every step of the
scan, but the initial ones had the type of gamma_0.
---
 aemcmc/ffbs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 9d5a2b5..a16e868 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -2,6 +2,7 @@ from typing import Mapping, Tuple
 
 import aesara
 import aesara.tensor as at
+from aesara.scalar.basic import upcast
 from aesara.tensor.random import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -67,6 +68,11 @@ def ffbs_step(
     Gammas = at.as_tensor(Gammas)
     log_lik = at.as_tensor(log_lik)
 
+    # The forward quantities need to have the same type at every step
+    gamma_0 = gamma_0.astype(
+        upcast(gamma_0.dtype, Gammas.dtype, log_lik.dtype, aesara.config.floatX)
+    )
+
     # Number of observations
     N = log_lik.shape[-1]
 
-- 
2.43.0


From 1c47aea8b965d625d1dd6319edff2b692e7cd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 36/36] fix: Don't match subsumed operations with different
 constants

The constants that were subsumed are neither arguments nor properties of the
operation, so that 2 * x and 3 * x were considered to be the same.
---
 aemcmc/rewriting.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index e4f06c2..f93b066 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -18,7 +18,7 @@ from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.rewriting.shape import ShapeFeature
 from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
-from cons.core import _car
+from cons.core import ConsError, _car
 from unification.core import _unify
 
 from aemcmc.utils import remove_constants
@@ -295,6 +295,14 @@ def _unify_SubsumingElemwise(u: Elemwise, v: SubsumingElemwise, s: Mapping):
         yield _unify(u, v.elemwise_op, s)
 
 
+def _unify_SubsumingElemwises(u: SubsumingElemwise, v: SubsumingElemwise, s: Mapping):
+    if u.has_constants or v.has_constants:
+        # The constants could be different
+        yield s if u == v else False
+    else:
+        yield _unify(v.elemwise_op, u.elemwise_op, s)
+
+
 _unify.add(
     (Elemwise, SubsumingElemwise, Mapping),
     lambda u, v, s: _unify_SubsumingElemwise(u, v, s),
@@ -305,15 +313,16 @@ _unify.add(
 )
 _unify.add(
     (SubsumingElemwise, SubsumingElemwise, Mapping),
-    lambda u, v, s: _unify(v.elemwise_op, u.elemwise_op, s),
+    lambda u, v, s: _unify_SubsumingElemwises(u, v, s),
 )
 
 
 def car_SubsumingElemwise(x):
     if x.has_constants:
         # The inputs given to `x` aren't all of the arguments of its `Elemwise`,
-        # so applications of the two are not interchangeable
-        return type(x)
+        # so applications of the two are not interchangeable.  The properties of
+        # `x` don't include the constants, either.
+        raise ConsError("Not a cons pair.")
     return type(x.elemwise_op)
 
 
-- 
2.43.0

