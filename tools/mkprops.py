"""Write properties.jsonl and MANIFEST.json from one description."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique="", note="", claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=list(state), technique=technique, note=note, claimed=claimed))

TV = "TLA+ trace validation with TLC (real-arithmetic operators overridden in Java)"
COMMON = ("Model checking of recorded behaviours: every recorded step is replayed by TLC against the specification, in 40-digit arithmetic. "
          "Trusts that aesara draws random variables from the law of their node's parameters, and TLC with the Java number operators. ")

prop("P01", "Conjugate steps draw from the exact full conditional",
     "When a model has a prior and observations that form one of the supported conjugate pairs (gamma-Poisson, beta-binomial, beta-negative-binomial), the constructed sampler's new value for the prior variable is a draw from its exact full conditional distribution given everything else at that point of the iteration. "
     "This holds for every shape, every way of giving the parameters (constants, inputs, shared variables, other random variables), every observation and every iteration of a chain.",
     ["inputs", "programs", "histories"], "all models containing such a pair, all parameter values, observations and chain states",
     "The tests construct one scalar model per pair and compare parameter names or a few moments; they don't evaluate the drawn law against the model's own density, so wrong parametrisations (rate/scale, swapped counts) pass.",
     ["aemcmc/conjugates.py", "aemcmc/basic.py"],
     [("gamma_poisson_conjugateo", "aemcmc/conjugates.py"), ("beta_binomial_conjugateo", "aemcmc/conjugates.py"), ("beta_negative_binomial_conjugateo", "aemcmc/conjugates.py")],
     ["the random draws performed by the compiled sampler", "the values of sample_steps"], technique=TV,
     note=COMMON + "The law of the recorded draw is compared with the model's joint density at several points of the support (their difference has to be constant).")
prop("P02", "Horseshoe steps update the shrinkage parameters with the right kernels",
     "For coefficients beta_j ~ N(0, s^2 lambda_j^2 tau^2) with standard half-Cauchy lambda_j and tau, the step for the local parameters draws from their conditional given the old global parameter, and the step for the global one from its conditional given the new local ones, each through the inverse-gamma augmentation of the half-Cauchy. "
     "This holds for any number of coefficients, either order of the factors, scalar or length-one tau, observed or sampled coefficients, any variance s^2 and any number of horseshoes in a model.",
     ["inputs", "programs", "histories"], "all horseshoe priors, coefficients, variances and chain states",
     "The tests run the kernel at a few scalings and check rough inequalities or that the graph has the right type; the rates and shapes of the draws are not compared with the conditional laws.",
     ["aemcmc/gibbs.py"], [("horseshoe_posterior", "aemcmc/gibbs.py"), ("normal_horseshoe_finder", "aemcmc/gibbs.py"), ("horseshoe_match", "aemcmc/gibbs.py")],
     ["the exponential and gamma draws of an iteration", "the returned values of lambda and tau"], technique=TV,
     note=COMMON + "The draws are matched to the roles of the augmentation whatever their order; exponential, gamma and inverse-gamma forms are identified.")
prop("P03", "Logistic regression steps draw coefficients from the augmented conditional",
     "For zero-mean normal coefficients that enter a negative-binomial or Bernoulli observation model through a logistic link, the new coefficients are a draw from their normal full conditional given Polya-Gamma variables, and those are drawn with the observation model's counts and the current coefficients' linear predictor. "
     "This holds for any design matrix (more rows than columns or fewer), any prior scales, dispersions and observations, in samplers constructed for a model and in the posterior functions called directly.",
     ["inputs", "programs", "histories"], "all design matrices, prior scales, dispersions, observations and chain states",
     "The tests compare posterior means of one simulated data set at loose tolerances; sign, scale and precision errors that leave the means plausible pass, and so do errors in a branch that the dimensions of the data set don't reach.",
     ["aemcmc/gibbs.py", "aemcmc/dists.py"], [("nbinom_normal_posterior", "aemcmc/gibbs.py"), ("bern_normal_posterior", "aemcmc/gibbs.py"), ("normal_regression_posterior", "aemcmc/gibbs.py"), ("multivariate_normal_rue2005", "aemcmc/dists.py"), ("multivariate_normal_cong2017", "aemcmc/dists.py")],
     ["the Polya-Gamma and normal draws of an iteration", "the returned coefficients"], technique=TV + "; the affine map from the normal draws to the result is probed by replaying the iteration",
     note=COMMON + "The mean and covariance of the draw are obtained by replaying the iteration with other normal draws, and compared with the mode and curvature of the model's own (augmented) density.")
prop("P04", "Dispersion steps follow the CRT augmentation of the negative binomial",
     "The step for a gamma-distributed negative-binomial dispersion draws table counts from the Chinese restaurant process of every observation with the current dispersion, and then the dispersion from its exact conditional given those counts and the success probabilities of the current coefficients. "
     "This holds for all observations including zeros and ones, all gamma priors and all probabilities, in constructed samplers and in the posterior functions called directly.",
     ["inputs", "programs", "histories"], "all observations, gamma priors, probabilities, dispersions and chain states",
     "The tests check the mean of the table counts for one y and h, and the posterior of one simulated data set at loose tolerances.",
     ["aemcmc/gibbs.py"], [("sample_CRT", "aemcmc/gibbs.py"), ("nbinom_dispersion_posterior", "aemcmc/gibbs.py"), ("nbinom_logistic_finder", "aemcmc/gibbs.py")],
     ["the Bernoulli and gamma draws of an iteration", "the returned dispersion"], technique=TV,
     note=COMMON + "Known finding KF1 (see DESIGN.md): only the exact known wrong rate is tolerated, and reported.")
prop("P05", "Forward-filtering backward-sampling draws exact posterior state paths",
     "A state sequence returned by the forward-filtering backward-sampling step has exactly the posterior distribution of the hidden Markov model's path given the observations, with the initial distribution applying before the first transition. "
     "This holds for any number of states and observations, constant or time-varying transition matrices, unnormalised initial weights, impossible transitions, any log-likelihoods whose ratios are representable, and any re-normalisation bound.",
     ["inputs", "histories"], "all hidden Markov models, observation sequences and outcomes of the state draws",
     "The tests use degenerate likelihoods or transitions for which only one path is possible, so the probabilities of the draws are never observed.",
     ["aemcmc/ffbs.py"], [("ffbs_step", "aemcmc/ffbs.py")], ["the categorical draws", "the returned states"],
     technique="TLA+ state machine of the forward and backward passes; exhaustive enumeration of all paths of small models forced into the real code, TLC validates each",
     note="All M^N paths of small models are forced into the real code; the product of the probabilities of its draws is compared with the posterior probability of the returned path, computed by summing over all paths. Long sequences are checked draw by draw against an exact filter.")
prop("P06", "Normal samplers have the mean and covariance that they promise",
     "The multivariate normal samplers return a draw from exactly the documented distribution: N(Q^-1 b, Q^-1) for the precision form, N(L^-1 phi' W t, L^-1) with L = A + phi' W phi for the structured form, and the posterior of a normal linear model with prior standard deviations for the regression form. "
     "This holds for any dimensions, including more columns than rows, and any positive weights and scales.",
     ["inputs"], "all dimensions, matrices, weights and scales",
     "The tests compare sample moments of a few cases; when the weights or scales are all one, or in the branch that the dimensions don't select, wrong powers or orientations pass.",
     ["aemcmc/dists.py", "aemcmc/gibbs.py"], [("multivariate_normal_rue2005", "aemcmc/dists.py"), ("multivariate_normal_cong2017", "aemcmc/dists.py"), ("normal_regression_posterior", "aemcmc/gibbs.py")],
     ["the standard normal draws", "the returned vector"], technique=TV + "; affine probing of the samplers",
     note="The affine map from standard normals to the result is measured exactly (one replay per normal), and TLC checks A m = b and A R R' = I.")
prop("P07", "An iteration is a serial scan of steps, each conditioned on the latest values",
     "One iteration of a constructed sampler updates every unobserved variable of the model exactly once, as the sequence of its stages in their listed order: each stage uses the new values of the variables updated before it and the current values of those updated after it, and leaves its full conditional invariant. "
     "This holds for every combination of the supported steps and NUTS in one model, every choice of observed variables, and every number of iterations.",
     ["programs", "histories", "schedules"], "all models combining several samplers, all sets of observed variables, all chain histories",
     "The tests construct at most one composite model and never compare the value a step used with the one that an earlier step produced in that iteration.",
     ["aemcmc/basic.py", "aemcmc/types.py", "aemcmc/nuts.py"], [("construct_sampler", "aemcmc/basic.py"), ("Sampler.stages", "aemcmc/types.py")],
     ["all draws of an iteration with their parameters", "the values returned for all variables"], technique=TV + "; TLC also checks on small discrete models that a serial scan of such steps leaves the joint distribution invariant",
     note=COMMON + "Every stage of every recorded iteration is judged in the environment left by the stages before it. The design-level model (GibbsScan) is checked exhaustively for small discrete joints.")
prop("P09", "NUTS steps target the posterior and map positions back correctly",
     "For the variables without a specialised step, the gradient-based step starts at their current values mapped to the real line, targets the joint density of the model with the change-of-variables terms, conditioned on the observations and on the values that the other steps have just drawn, and returns the new position mapped back to each variable's support. "
     "This holds for all supported priors, shapes and hierarchies, including supports that depend on other sampled variables.",
     ["inputs", "programs", "histories"], "all models and subsets of variables sampled by NUTS, positions and chain states",
     "The tests sample one or two simple models and compare posterior means; the target density is never evaluated at a given position, nor are dependent supports or mixtures with Gibbs steps.",
     ["aemcmc/nuts.py", "aemcmc/basic.py"], [("step", "aemcmc/nuts.py"), ("construct_sampler", "aemcmc/nuts.py"), ("transform_forward / transform_backward", "aemcmc/nuts.py")],
     ["the log density and positions that the NUTS kernel is given", "the values returned"], technique=TV + "; the NUTS kernel is replaced by a probe",
     note=COMMON + "aehmc's transition kernel is replaced by a probe that moves the position by a given amount and records the log density at both ends; that aehmc's kernel leaves that density invariant is assumed.")

def manifest(extra):
    pass

if __name__ == "__main__":
    exec(open(os.path.join(VERIF, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "props_more.py")) else None
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash bin/setup",
           "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P if p["claimed"]],
           "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claimed"]],
           "notes": "No hooks in /repo: the harness records at aesara's RandomVariable.perform and replaces aehmc's NUTS kernel."}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
