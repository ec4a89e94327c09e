prop("P08", "Specialised samplers are used where they apply and only where they apply",
     "A variable gets a specialised (Gibbs) step whenever its model has one of the documented patterns in any of the forms that its internal representation identifies, and a step of any kind, specialised or not, is only ever used where it leaves the variable's full conditional invariant. "
     "A model that is close to a pattern but not an instance of it (another prior, scale, mean or link, broadcasting, additional uses of a variable, a second observed variable) gets steps that are right for that model.",
     ["programs"], "all models at and around the documented patterns",
     "The tests give each matcher a handful of graphs; a matcher that ignores a parameter, a client or a broadcast accepts infinitely many models for which its sampler is wrong, and no error shows it.",
     ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/rewriting.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("normal_horseshoe_finder", "aemcmc/gibbs.py"), ("nbinom_logistic_finder", "aemcmc/gibbs.py"), ("bern_normal_posterior finder", "aemcmc/gibbs.py"), ("conjugate matchers", "aemcmc/conjugates.py")],
     ["the steps that are constructed for each variable", "the draws and results of an iteration"],
     technique="TLC enumerates the models within a number of changes of the documented patterns from the specification; each is built with the real code and its iterations are validated by TLC",
     note=COMMON + "All models one change away from a pattern are built on every run; two changes are sampled in the quick check, and are complete, with a sample of three, in the thorough one.")
prop("P10", "Generators are used linearly and seeds reproduce chains",
     "No state of a random generator is used for two different draws: neither within an iteration, nor in different iterations, nor in different samplers made from the same stream, and after every call the shared generators have moved past all states that were used. "
     "A program that is run again with the same seed gives the same chain in any process, and one that is run with another seed gives another.",
     ["histories", "programs"], "all samplers, numbers of iterations, interleavings of samplers made from one stream, seeds and processes",
     "The tests run a sampler in one process and look at its values; a missing or misdirected update repeats or correlates draws without any failure, and an iteration order that depends on hashes shows only between processes.",
     ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/nuts.py", "aemcmc/ffbs.py", "aemcmc/sample.py"],
     [("construct_sampler: updates", "aemcmc/basic.py"), ("horseshoe/regression/dispersion steps: updates", "aemcmc/gibbs.py"), ("construct_sampler: updates", "aemcmc/nuts.py")],
     ["the generator states before and after each draw", "the shared generators after each call", "results of separate processes"],
     state=[{"name": "RandomStream.state_updates", "meaning": "shared generators and their updates", "where": "aemcmc/basic.py"}],
     technique="TLA+ state machine of generator states; TLC validates recorded histories of calls of interleaved samplers and of separate processes",
     note="Generator states are hashed and their history is validated call by call by TLC (Rng.tla).")
prop("P11", "Samples of the prior are independent draws from the model's joint prior",
     "Each of the requested number of rows returned by sample_prior is a joint draw from the model: every requested variable, and every variable it depends on, is drawn anew in that row from its own distribution given the values of its parents in that same row, and derived quantities are computed from that row's values. "
     "This holds for any subset and order of the requested variables, any number of samples (constant or symbolic), any generators that the variables use, and any number of calls, and no generator state is used for two rows or left behind in a used state.",
     ["inputs", "programs", "histories"], "all models, lists of requested variables, numbers of samples, kinds of generators and calls",
     "The tests look at shapes and one mean; rows that repeat, that mix the parents of different rows or that reuse a generator's state have the right shapes and means.",
     ["aemcmc/sample.py", "aemcmc/utils.py"], [("sample_prior", "aemcmc/sample.py"), ("get_rv_updates", "aemcmc/utils.py")],
     ["the draws that a compiled program performs, with their parameters and generator states", "the rows that it returns", "the shared generators afterwards"],
     technique="TLA+ state machine of ancestral sampling (PriorTrace.tla); TLC assigns the recorded draws to variables and rows and validates them",
     note=COMMON + "Draws are assigned to variables by TLC, by law, value and generator state; nothing is assumed about their order in a row.")
prop("P12", "The internal representation of a model is that model",
     "The rewritten graph that matching works on, once its merged operations are expanded again, has the same joint law as the model that was given: the same variables, with the same distributions given their parents, the same generators and the same values for the observed ones. "
     "Building it, and constructing a sampler from it, leaves the model, its generators, their updates and the dict of observations as they were.",
     ["programs"], "all models with elementwise, broadcast and transposed uses of random variables",
     "The tests compare one or two rewritten graphs with an expected text; a rewrite that drops an axis, swaps the arguments of a non-commutative operation or replaces a variable by a copy only shows when other graphs are evaluated.",
     ["aemcmc/rewriting.py", "aemcmc/basic.py"], [("construct_ir_fgraph", "aemcmc/rewriting.py"), ("SubsumingElemwise", "aemcmc/rewriting.py"), ("local_elemwise_dimshuffle_subsume", "aemcmc/rewriting.py"), ("expand_subsumptions", "aemcmc/rewriting.py")],
     ["the variables and observations of the representation", "the draws and values of compiled graphs before and after"],
     technique="TLC enumerates broadcasting models from the specification (IRModels.tla); each goes through the real rewrites and the resulting program is validated against the model by TLC (PriorTrace.tla)",
     note=COMMON + "7192 enumerated models; the quick check takes a sample of them.")
prop("P13", "Re-expressions of a random variable have its distribution",
     "A random variable and the expression that the transformation relations replace it with (location-scale families; inverse-gamma with unit shape as the reciprocal of an exponential) have the same distribution and the same shape. "
     "This holds elementwise for every shape, broadcasting and size of the parameters and for constant, symbolic and random parameters, and the relation holds for nothing else.",
     ["inputs", "programs"], "all parameter values and shapes of the supported families, and other distributions",
     "The tests compare the form of the resulting graph for scalars; whether the parameters end up in the right place of the density is never evaluated.",
     ["aemcmc/transforms.py"], [("location_scale_transform", "aemcmc/transforms.py"), ("invgamma_exponential", "aemcmc/transforms.py")],
     ["the expression a relation yields, evaluated with chosen values of its draw"],
     technique=TV + "; change of variables evaluated at probed draws",
     note="The result is evaluated with five chosen values of its draw; TLC recovers the map (affine or reciprocal of affine) and compares log densities. Known findings KF3 and KF4 (see DESIGN.md).")
prop("P14", "A model description is accepted exactly when it is consistent; its maps agree",
     "A ModelInfo can be made exactly when the observed variables are among the keys of the map of values and all tracked variables have names that are non-empty and unique. "
     "The observed and unobserved variables and values then partition that map in its order, the maps from values to variables and from names to variables are its exact inverses over all tracked variables, and descriptions are immutable and share nothing.",
     ["inputs"], "all sets of observed, unobserved and deterministic variables, their orders and names",
     "The tests make a handful of descriptions; a map that is built in another order, drops a class of variables or misses one kind of clash passes them.",
     ["aemcmc/utils.py"], [("ModelInfo", "aemcmc/utils.py")], ["acceptance of a description", "its attributes"],
     state=[{"name": "ModelInfo", "meaning": "immutable description of a model", "where": "aemcmc/utils.py"}],
     technique="TLC enumerates all descriptions within bounds with their expected outcome (ModelInfo.tla); every one is given to the real class",
     note="Exhaustive for up to three random variables, their values and one deterministic variable, with up to one (quick) or two (thorough) unusual names.")
prop("P15", "Polya-Gamma draws have their shape, type, law and generator history",
     "A Polya-Gamma random variable PG(h, z) has the broadcast shape of its parameters, preceded by the requested size, and every element of its value is an independent PG draw with that element's parameters, of the variable's floating point type. "
     "This holds for constant and symbolic parameters, any size and dimensions, and sequences of draws from one generator, which is advanced by each of them and only by them; what can't be broadcast is refused.",
     ["inputs", "histories"], "all shapes, sizes and types of the parameters and sequences of draws",
     "The tests look at one moment of a scalar draw and the shapes of one or two requests; draws with parameters of another element, or that repeat a generator's state, have the right shape and plausible values.",
     ["aemcmc/dists.py"], [("PolyaGammaRV.rng_fn", "aemcmc/dists.py"), ("polyagamma", "aemcmc/dists.py")],
     ["the type and the value of a draw", "the generator states before and after it"],
     technique="TLC enumerates the requests (PGRequests.tla); each is given to the real variable and the recorded values are validated by TLC against the law's Laplace transform (PGTrace.tla)",
     note="All shapes of up to two dimensions within bounds. The law is compared by the Laplace transform of seeded samples with a margin of more than six standard errors, so a deviation has to exceed it; everything else is exact.")
prop("P16", "A sampler is self-contained, complete and type-stable",
     "The sampler constructed for a model has a step and an initial value of the variable's own type for exactly the unobserved variables that the observations depend on, whatever the graph of their dependencies, its stages partition them in the order of the steps, and its parameters are those of its gradient-based kernel, if there is one, and reach it. "
     "An iteration depends on nothing but the observed values, the current values, these parameters, the model's inputs and generators, draws no variable of the model from its prior, and yields values of the types and shapes it was given, so that it can be repeated, with either floating point type.",
     ["programs", "histories"], "all dependency graphs, sets of observed variables, combinations of samplers and floating point types",
     "The tests construct samplers for a dozen models with 64-bit floats; a variable that is left out, sampled needlessly, redrawn from its prior or upcast only shows for graphs that they don't contain.",
     ["aemcmc/basic.py", "aemcmc/types.py", "aemcmc/nuts.py", "aemcmc/gibbs.py", "aemcmc/conjugates.py"],
     [("construct_sampler", "aemcmc/basic.py"), ("Sampler", "aemcmc/types.py"), ("construct_sampler", "aemcmc/nuts.py")],
     ["sample_steps, initial_values, stages, parameters and updates", "the values, the draws and the kernel's arguments of an iteration"],
     technique="TLC enumerates all dependency graphs of bounded size (Dags.tla) besides the listed models; the real samplers for them are recorded and TLC validates the records (SamplerShape.tla)",
     note=COMMON + "All graphs of three variables and a sample of those with four (thorough); a sample of both in the quick check.")
