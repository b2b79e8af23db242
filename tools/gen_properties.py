"""Write properties.jsonl (kept as a script so that the long strings stay editable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Conjugate posterior steps draw from the exact posterior",
     "For a gamma-Poisson, beta-binomial or beta-negative-binomial model, the step that the sampler constructor returns for the latent parameter draws from its exact posterior given the observed values, element by element and with the prior's shape. This holds for every valid combination of hyperparameters (constant, symbolic, shared, array-valued), prior size, numbers of trials, and data shape, including several observations sharing one parameter, and all-zero or extreme data.",
     ["inputs", "programs"],
     "all hyperparameters, sizes, broadcast patterns between parameter and observations, data values and ways of passing them",
     "The tests only inspect the types of a few graphs for scalar models and never draw from a posterior, so a wrong parameterisation or a missing sum over observations passes.",
     ["aemcmc/conjugates.py", "aemcmc/basic.py"],
     [("gamma_poisson_conjugateo", "aemcmc/conjugates.py"), ("beta_binomial_conjugateo", "aemcmc/conjugates.py"), ("beta_negative_binomial_conjugateo", "aemcmc/conjugates.py"), ("sum_over_observations", "aemcmc/conjugates.py")],
     ["draws of sampler.sample_steps[parameter] given data"])

prop("C02", "The logistic-regression coefficient step targets the exact posterior",
     "The Gibbs step for the coefficients of a Bernoulli logistic regression with a zero-mean normal prior leaves the exact posterior of the coefficients given the data invariant, and repeated application from any finite starting value converges to that posterior. The posterior is that of the model as written (the constructed step is for success probability sigmoid of minus the linear predictor; the posterior function is for sigmoid of the linear predictor). This holds for any design matrix (more, as many or fewer rows than columns), any 0/1 data and any positive scalar or per-coefficient prior scales.",
     ["inputs", "histories"],
     "all finite design matrices, 0/1 outcomes, prior scales, starting values and numbers of iterations",
     "The tests check rough posterior means on one large data set with loose tolerances; a step that targets a slightly different distribution, or fails only for wide designs or vector scales, is not visible there.",
     ["aemcmc/gibbs.py", "aemcmc/dists.py"],
     [("bern_normal_posterior", "aemcmc/gibbs.py"), ("normal_regression_posterior", "aemcmc/gibbs.py"), ("bern_logistic_finder", "aemcmc/gibbs.py")],
     ["draws of the step function and of the constructed sampler's step"])

prop("C03", "The negative-binomial regression coefficient step is exact",
     "The Gibbs step for the coefficients of a negative-binomial regression (success probability sigmoid of minus the linear predictor, zero-mean normal prior) leaves the exact posterior of the coefficients given the data and the dispersion invariant, and repeated application from any finite start converges to it. This holds for any design matrix, counts (including zeros and large counts), dispersion value and scalar or per-coefficient prior scales.",
     ["inputs", "histories"],
     "all finite design matrices, counts, dispersions, prior scales, starting values and numbers of iterations",
     "The tests compare posterior means for one data set with loose tolerances.",
     ["aemcmc/gibbs.py", "aemcmc/dists.py"],
     [("nbinom_normal_posterior", "aemcmc/gibbs.py"), ("nbinom_logistic_finder", "aemcmc/gibbs.py")],
     ["draws of the step function and of the constructed sampler's step"])

prop("C04", "The negative-binomial dispersion step is exact",
     "Given counts that are negative binomial with dispersion h and per-observation probabilities p under the documented convention (each count weighted by p, each unit of dispersion by 1-p) and a gamma prior with shape a and scale b, the dispersion step draws from Gamma(a + L, scale 1/(1/b - sum log(1-p))) with L the sum of the table counts of Chinese-restaurant processes with concentration h, so it leaves the exact posterior of h invariant. This holds for all counts (including all zero), probabilities, current values and hyperparameters.",
     ["inputs", "histories"],
     "all counts, probabilities, current dispersions and hyperparameters",
     "The tests check one posterior mean within a loose tolerance for one simulated data set.",
     ["aemcmc/gibbs.py"],
     [("nbinom_dispersion_posterior", "aemcmc/gibbs.py"), ("sample_CRT", "aemcmc/gibbs.py")],
     ["draws of the step function given h, p, a, b, y"])

prop("C05", "The horseshoe shrinkage step leaves its posterior invariant",
     "Given coefficients normally distributed with standard deviations equal to the product of standard half-Cauchy local and global scales (times a fixed noise scale), the horseshoe step's new local and global scales leave the joint posterior of the scales given the coefficients invariant, are always positive, and keep one local scale per coefficient and one global scale. This holds for any number of coefficients (including one), any coefficient values and noise variances, and repeated application converges from any positive start.",
     ["inputs", "histories"],
     "all coefficient vectors, noise variances and current scales",
     "The tests run one long chain on simulated data and compare a posterior mean with a tolerance of up to tens of percent.",
     ["aemcmc/gibbs.py"],
     [("horseshoe_posterior", "aemcmc/gibbs.py"), ("normal_horseshoe_finder", "aemcmc/gibbs.py"), ("horseshoe_match", "aemcmc/gibbs.py")],
     ["draws of the step function and of the constructed sampler's steps"])

prop("C06", "A constructed sampler's iteration leaves the model's posterior invariant",
     "For any supported model, one iteration of the constructed sampler (all steps evaluated together, started from a draw of the joint posterior given the observations) yields another draw of the same joint posterior. In particular each step conditions on the current values of the other variables, on the values already updated in the same iteration where steps come later in scan order, and on the observed values and model inputs, never on stale values or fresh prior draws.",
     ["programs", "inputs", "histories"],
     "all models composed of recognised parts (conjugate pairs, logistic and negative-binomial regressions, fixed, hierarchical or horseshoe scales, gamma dispersion, remaining variables) with any data and starting point",
     "The tests run one composed model (horseshoe negative-binomial regression) and check a few posterior means within loose tolerances; wrong conditioning between steps is almost invisible in such means.",
     ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/rewriting.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("expand_subsumptions", "aemcmc/rewriting.py"), ("SamplerTracker", "aemcmc/rewriting.py")],
     ["joint draws of sampler.sample_steps given initial values, observations and inputs"])

prop("C07", "Gaussian regression posteriors have the exact mean and covariance",
     "The normal-regression posterior draws coefficients from the normal distribution with precision X' diag(omega) X + diag(1/scale^2) and mean precision^-1 X' diag(omega) z. This holds for every shape of X (more, as many or fewer rows than columns, single rows or columns), every positive omega, scalar or per-coefficient inverse scales and any z, and the choice of algorithm by shape never changes the distribution.",
     ["inputs"],
     "all design shapes and values, weights, prior scales and responses",
     "No existing test checks this distribution: it is only reached through Gibbs steps whose tests use loose tolerances and never prior scales far from one.",
     ["aemcmc/gibbs.py"],
     [("normal_regression_posterior", "aemcmc/gibbs.py"), ("normal_regression_overdetermined_posterior", "aemcmc/gibbs.py"), ("normal_regression_underdetermined_posterior", "aemcmc/gibbs.py")],
     ["draws of the function"])

prop("C08", "Structured multivariate normal samplers draw from the stated distribution",
     "The precision-based sampler draws from the normal distribution with mean Q^-1 b and covariance Q^-1 for every vector b and positive definite Q, given densely or as a sparse matrix. The low-rank-structured sampler draws from the normal distribution with precision A + phi' Omega phi and mean precision^-1 phi' Omega t for all positive diagonals A and Omega and any phi, whatever its shape.",
     ["inputs"],
     "all positive definite precisions, right-hand sides, diagonals and factor matrices of any shape",
     "The tests compare sample moments for one fixed matrix each.",
     ["aemcmc/dists.py"],
     [("multivariate_normal_rue2005", "aemcmc/dists.py"), ("multivariate_normal_cong2017", "aemcmc/dists.py")],
     ["draws of the functions"])

prop("C09", "Polya-Gamma variates follow PG(h, z)",
     "The Polya-Gamma random variable draws independent positive values with the PG(h, z) distribution for every positive shape h (fractional, one, large) and real tilt z of either sign. The result has the broadcast shape of its parameters or the requested size, the configured floating point type, and depends on nothing but the parameters and the generator it is given, which it advances.",
     ["inputs"],
     "all shapes, tilts, broadcast patterns, sizes and generator states",
     "The single test checks means for a few fixed parameter values.",
     ["aemcmc/dists.py"],
     [("PolyaGammaRV", "aemcmc/dists.py")],
     ["draws of the random variable"])

prop("C10", "Chinese-restaurant table counts have the exact distribution",
     "The table-count sampler draws, independently for each count y, a value with the exact distribution of the number of occupied tables after y customers with concentration h. The result has the shape of the counts, is zero exactly where the count is zero, lies between one and the count elsewhere, and successive evaluations using the returned updates are independent.",
     ["inputs", "histories"],
     "all counts (zero, one, large; any array shape) and positive concentrations, and successive calls",
     "The test checks only the mean for a handful of (h, y) pairs.",
     ["aemcmc/gibbs.py"],
     [("sample_CRT", "aemcmc/gibbs.py")],
     ["draws of the function and its updates"])

prop("C11", "Forward-filtering backward-sampling draws exact state paths",
     "State sequences drawn by the FFBS step follow the exact joint posterior over paths of the hidden Markov model given by the (possibly unnormalised) initial distribution, the transition matrices and the log-likelihoods, where the initial distribution is that of the state before the first transition. This holds for any number of states, any sequence length (one observation, or sequences long enough to need rescaling), time-varying or single broadcast transition matrices, zeros in either, and log-likelihoods with any offset; impossible states are never drawn.",
     ["inputs", "histories"],
     "all initial distributions, transition matrices (constant or time-varying, with zeros), log-likelihoods, lengths and successive draws",
     "The tests use nearly deterministic likelihoods, so that the path is known in advance and the transition and smoothing probabilities hardly matter.",
     ["aemcmc/ffbs.py"],
     [("ffbs_step forward pass and rescaling", "aemcmc/ffbs.py"), ("ffbs_step backward pass", "aemcmc/ffbs.py")],
     ["draws of the state sequence"])

prop("C12", "The NUTS step leaves the posterior invariant in the original space",
     "For any set of continuous variables and any step size and mass matrix, the NUTS step started from a draw of their posterior given the other variables' values returns another draw of it, in the variables' original space, shape and support (positive, interval with constant or random bounds, simplex, unconstrained). Each returned value belongs to the variable it is keyed by, the conditioning values are those supplied, and the step moves.",
     ["programs", "inputs", "histories"],
     "all models of continuous variables and transforms, current values, data, step sizes and inverse mass matrices",
     "The tests check finite values or a posterior mean for one or two normal models; Jacobian, ordering and bound errors of transforms are never exercised.",
     ["aemcmc/nuts.py"],
     [("step", "aemcmc/nuts.py"), ("transform_forward / transform_backward", "aemcmc/nuts.py"), ("construct_sampler", "aemcmc/nuts.py")],
     ["draws of the step given current values"])

prop("C13", "Every unobserved variable gets one step and one initial value, self-contained",
     "The constructed sampler has exactly one step and one initial-value variable for every unobserved random variable of the model and none for observed ones, of a compatible type and shape. The steps can be compiled and run with only the initial values, observed values, model inputs and tuning parameters as inputs, their results are functions of these and of generator states, and changing the state of the model's own prior generators does not affect them.",
     ["programs", "inputs"],
     "all supported models, any number and arrangement of observed and latent variables, hierarchical or not",
     "The tests look at three fixed models and never check what the compiled steps depend on.",
     ["aemcmc/basic.py", "aemcmc/rewriting.py", "aemcmc/nuts.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("construct_ir_fgraph", "aemcmc/rewriting.py"), ("construct_sampler", "aemcmc/nuts.py")],
     ["keys, types and graph dependencies of the results; compiled function"])

prop("C14", "Constructing a sampler leaves the user's model untouched and is repeatable",
     "Constructing a sampler changes neither the model's graph, the observation mapping, nor the state of any random generator the model uses, so that drawing from the model afterwards gives what it would have given without. Constructing it again, from the same or a newly built identical model, with a stream in the same state, gives a sampler whose steps draw the same values.",
     ["programs", "histories"],
     "all supported models and sequences of constructions, prior draws and posterior draws",
     "No test constructs more than one sampler from a model or uses the model afterwards.",
     ["aemcmc/basic.py", "aemcmc/rewriting.py"],
     [("construct_ir_fgraph (clone)", "aemcmc/rewriting.py"), ("construct_sampler", "aemcmc/basic.py")],
     ["model graph fingerprints and prior draws before and after; draws of repeated constructions"])

prop("C15", "Specialised steps are used exactly for the models they are valid for",
     "A variable is given a specialised (closed-form or Gibbs) step only if that step is valid for the variable's full conditional distribution in the whole model; in any other model, e.g. another prior, a nonzero prior mean, non-standard scales, a different link, a transformed or reused parameter, the variable is left to the general-purpose sampler. The documented model forms (conjugate pairs, logistic and negative-binomial regressions with fixed or horseshoe scales, gamma dispersion) are given their specialised steps, however their equivalent inputs are supplied.",
     ["programs"],
     "all models that instantiate, or deviate in one or more respects from, the documented forms",
     "The tests check a few negative examples of the pattern matchers in isolation, and a handful of positive models.",
     ["aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/rewriting.py"],
     [("horseshoe_match", "aemcmc/gibbs.py"), ("nbinom_sigmoid_dot_match / bern_sigmoid_dot_match", "aemcmc/gibbs.py"), ("gamma_match", "aemcmc/gibbs.py"), ("sampler_finder", "aemcmc/rewriting.py"), ("SubsumingElemwise unification", "aemcmc/rewriting.py")],
     ["which variables' steps have tuning parameters; validity of the steps' draws"])

prop("C16", "Randomness is reproducible, fresh and never shared",
     "With the stream in the same state, a compiled sampler or step produces the same sequence of draws, and with different seeds different ones. Within one sampler call and over successive calls, all random draws are fresh: no two steps, elements or calls reuse the same random numbers, and the returned updates advance exactly the generators that the draws use, consistently with those generators' own updates.",
     ["histories", "programs"],
     "all supported samplers and steps, sequences of calls, seeds and reseedings",
     "One test helper checks the update graph of two step types; values drawn over successive calls are never compared.",
     ["aemcmc/gibbs.py", "aemcmc/basic.py", "aemcmc/nuts.py", "aemcmc/ffbs.py", "aemcmc/conjugates.py"],
     [("updates returned by the steps", "aemcmc/gibbs.py"), ("posterior_updates", "aemcmc/basic.py")],
     ["sequences of draws and generator states"])

prop("C17", "The sampler intermediate representation preserves the model",
     "Converting any model to the sampler's intermediate form keeps every random variable, in an order where parents come first, with the same distribution as a function of its parents and inputs, and maps observed variables to their values and new variables to the originals. Undoing the argument-broadcast subsumption restores a graph that computes the same values, and pattern matching treats a subsumed operation as the plain one only when they have the same arguments.",
     ["programs", "inputs"],
     "all model graphs built from random variables and elementwise, broadcasting, reshaping and linear algebra operations, with constant, shared and symbolic inputs",
     "The tests look at four small graphs.",
     ["aemcmc/rewriting.py"],
     [("construct_ir_fgraph", "aemcmc/rewriting.py"), ("local_elemwise_dimshuffle_subsume", "aemcmc/rewriting.py"), ("SubsumingElemwise", "aemcmc/rewriting.py"), ("expand_subsumptions", "aemcmc/rewriting.py")],
     ["numerical evaluation of the original and converted graphs with the same parents"])

prop("C18", "Distribution-rewriting relations preserve the joint distribution",
     "Replacing a random variable by the result of the location-scale relation (for every family it covers) or of the inverse-gamma/exponential relation gives a graph with the same joint distribution, shape and type over all its elements, for any location, scale, size and broadcast pattern. The relations do not apply to distributions outside those families or to inverse-gammas whose shape parameter is not one.",
     ["programs", "inputs"],
     "all covered families, parameter values and shapes, sizes",
     "The tests look at the operators of two scalar graphs and never draw from them.",
     ["aemcmc/transforms.py"],
     [("location_scale_transform", "aemcmc/transforms.py"), ("invgamma_exponential", "aemcmc/transforms.py")],
     ["draws of the rewritten graph"])

prop("C19", "Prior sampling draws independent joint samples of the model",
     "Prior sampling returns, for each requested variable and in the requested order, an array with one leading dimension of the requested length whose entries are independent draws from the model's joint prior: each draw's variables are mutually consistent (children generated from the same draw's parents, deterministic functions exact) and draws are never repeated, within or across calls. The returned updates advance exactly the generators involved in the requested variables.",
     ["programs", "inputs", "histories"],
     "all models, selections and orders of variables (random, deterministic, repeated), numbers of samples (symbolic or constant), and successive calls",
     "One test checks the shapes and the update keys for a single model.",
     ["aemcmc/sample.py", "aemcmc/utils.py"],
     [("sample_prior", "aemcmc/sample.py"), ("get_rv_updates", "aemcmc/utils.py")],
     ["sampled arrays over successive calls, generator states, updates"])

prop("C20", "Model descriptions are internally consistent or rejected",
     "A model description built from observed variables, value variables and deterministic variables exposes exact inverse maps between variables and values, partitions the variables into observed and unobserved in the given order, and maps every name to its one variable. Descriptions in which a variable has no name, two variables share a name or a value, or an observed variable has no value are rejected with an error.",
     ["inputs", "programs"],
     "all sets of variables, names, orders and observed subsets",
     "The tests build one valid and two invalid examples.",
     ["aemcmc/utils.py"],
     [("ModelInfo.__post_init__", "aemcmc/utils.py")],
     ["attributes of the description"])

prop("C21", "The sampler record lists the steps, stages and parameters truthfully",
     "A sampler lists its variables in the order in which their steps are evaluated: a kernel's step sees the new values of the other kernels' variables listed before its own, and the old values of those listed after. The stages group exactly these variables by the kernel that updates them, keeping that order. The recorded tuning parameters are exactly the inputs that the steps need beyond the model's own, grouped under the kernel that uses them, with the mass matrix covering all of that kernel's elements.",
     ["programs"],
     "all supported models, and all hand-built records",
     "The tests only check the number of stages and kernel types for three models.",
     ["aemcmc/types.py", "aemcmc/basic.py", "aemcmc/nuts.py"],
     [("Sampler.__post_init__", "aemcmc/types.py"), ("construct_sampler", "aemcmc/basic.py"), ("construct_sampler parameters", "aemcmc/nuts.py")],
     ["graph dependencies of the steps against the recorded order; free inputs of the compiled steps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
