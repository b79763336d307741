"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
B="src/hmmlearn/base.py";H="src/hmmlearn/hmm.py";V="src/hmmlearn/vhmm.py";E="src/hmmlearn/_emissions.py"
S="src/hmmlearn/stats.py";U="src/hmmlearn/utils.py";P="src/hmmlearn/_utils.py";K="src/hmmlearn/_kl_divergence.py";C="ext/_hmmc.cpp"
P_=[]
def prop(id,title,stmt,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P_.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))
prop("C01","Scoring returns the exact log marginal likelihood",
 "For every valid model and data set, the log likelihood returned by scoring (with or without posteriors) equals the sum over the sequences of log of the sum, over all hidden state paths, of start probability times transition probabilities times emission densities, up to floating-point rounding. This holds for both the log and the scaling implementation, with zero probabilities contributing exactly nothing.",
 ["inputs","configurations"],"all models (any number of states, any sparsity of start/transition matrices), all sequences and splits into sequences, both implementations",
 "Tests compare a handful of fixed small models with stored numbers; the sum over nc**T paths must be right for every size, zero pattern and length split.",
 [B,C],[("forward recursion in log space","ext/_hmmc.cpp forward_log"),("scaled forward recursion","ext/_hmmc.cpp forward_scaling"),("accumulation over sequences",B+" _score_log/_score_scaling")],["score","score_samples"])
prop("C02","State posteriors are the exact conditional state probabilities",
 "For every valid model and every data set of positive likelihood, each row of the returned state posteriors equals the conditional probability of each hidden state at that time given the whole sequence it belongs to, up to rounding; in particular rows are non-negative and sum to one. Both implementations give this, row t of the output belonging to row t of the data.",
 ["inputs","configurations"],"all models, all sequences and length splits, both implementations",
 "Tests check normalisation and a few stored values, not equality with the conditional distribution for every model and length.",
 [B,C],[("forward/backward lattices","ext/_hmmc.cpp forward_*, backward_*"),("posterior from lattices",B+" _compute_posteriors_*")],["score_samples","predict_proba"])
prop("C03","Viterbi decoding returns a most probable path and its log probability",
 "For every valid model and data set in which some path has positive probability, Viterbi decoding returns, for each sequence, a state path whose joint probability with the observations is the maximum over all paths, and the returned log probability is the sum over sequences of the log of that maximum. Up to rounding, no other path scores higher than the one returned.",
 ["inputs","configurations"],"all models (including zero transitions), all sequences and splits",
 "The maximum ranges over nc**T paths; tests decode a few fixed sequences.",
 [C,B],[("max-product recursion and backtrace","ext/_hmmc.cpp viterbi"),("per-sequence dispatch",B+" decode/_decode_viterbi")],["decode","predict"])
prop("C04","MAP decoding returns each frame's most probable state and its score",
 "With the MAP algorithm (chosen on the model or per call), decoding returns at every frame a state of maximal posterior probability given its sequence, and a score equal to the sum over frames of those maximal posteriors; the decoder named in the call, else the model's, is the one used, and unknown names are rejected.",
 ["inputs","configurations"],"all models, data sets, splits, and algorithm selections",
 "Tests decode one stored sequence per algorithm.",
 [B],[("map decoder",B+" _decode_map"),("selection",B+" decode")],["decode","predict"])
prop("C05","The log and scaling implementations are interchangeable",
 "For every valid model and data set whose per-frame probabilities do not underflow, the two implementations return the same scores, the same state posteriors and, after fitting from the same starting parameters for the same number of iterations, the same parameters, up to rounding. An implementation name other than the two documented ones is rejected with an error.",
 ["inputs","configurations"],"all models, data sets, splits, families; both implementations",
 "Tests run both implementations separately on fixed examples and never compare them over inputs.",
 [B,C],[("scaled kernels","ext/_hmmc.cpp *_scaling, compute_scaling_xi_sum"),("log kernels","ext/_hmmc.cpp *_log, compute_log_xi_sum"),("dispatch",B+" _score/_fit_*/_accumulate_*")],["score","score_samples","fit"])
prop("C06","One EM iteration re-estimates start and transition probabilities exactly",
 "After one fitting iteration of a maximum-likelihood model, the start probabilities are proportional to the prior pseudo-counts (prior minus one) plus the expected number of sequences starting in each state, and each transition row is proportional to the prior pseudo-counts plus the expected number of transitions, expectations taken under the parameters before the iteration and summed over all sequences. Negative totals are clipped to zero, and sequences of length one contribute no transitions.",
 ["inputs","configurations"],"all models, data sets, splits into sequences, priors, both implementations",
 "Tests only check that the likelihood goes up on a few data sets; expected counts must be right for every model and length.",
 [B,C,U],[("transition counts","ext/_hmmc.cpp compute_*_xi_sum"),("accumulation",B+" _accumulate_sufficient_statistics*"),("update",B+" BaseHMM._do_mstep"),("row normalisation",U+" normalize")],["fit"])
prop("C07","One EM iteration re-estimates the emission parameters exactly",
 "After one fitting iteration of a Gaussian (spherical, diagonal, full or tied covariances), categorical, multinomial or Poisson model, every emission parameter that is being trained equals its closed-form maximum a posteriori update from the exact posterior-weighted statistics of all sequences and the model's documented conjugate prior parameters. With the flat defaults this is the maximum-likelihood update: posterior-weighted means, posterior-weighted scatter about the new means, symbol frequencies and mean counts.",
 ["inputs","configurations"],"all models, data sets, covariance types, prior settings, trained-parameter subsets",
 "Tests check likelihood increase or rough recovery on fixed seeds, not the update itself.",
 [H,E],[("sufficient statistics",E+" _accumulate_sufficient_statistics"),("updates",H+" _do_mstep of GaussianHMM, CategoricalHMM, MultinomialHMM, PoissonHMM")],["fit"])
prop("C08","One EM iteration re-estimates mixture-emission parameters exactly",
 "After one fitting iteration of a Gaussian-mixture model, the mixture weights, component means and covariances of every covariance type equal their closed-form updates from the joint posterior of state and mixture component (state posterior times component responsibility), covariances being the scatter about the component means in force when the iteration began, combined with the configured priors; with the default priors these are the plain posterior-weighted averages.",
 ["inputs","configurations"],"all mixture models, data sets, covariance types, priors",
 "Tests check monotone likelihood and recovery on fixed seeds.",
 [H,E],[("responsibilities and statistics",E+" BaseGMMHMM"),("updates",H+" GMMHMM._do_mstep")],["fit"])
prop("C09","Fitting never decreases the training log likelihood under flat priors",
 "For maximum-likelihood models with flat priors, each fitting iteration leaves the total log likelihood of the training data at least as large as before, up to rounding, whatever the model, data, starting point, trained-parameter subset and implementation, as long as the updates stay non-degenerate. The recorded history therefore never decreases.",
 ["inputs","histories","configurations"],"all non-degenerate starting models and data sets, all iterations, all parameter subsets",
 "Tests watch a few fits on fixed seeds; monotonicity must hold for every start and data set.",
 [B,H,E,C],[("exact E-step","C06/C07/C08 anchors"),("maximising M-step",H+" _do_mstep")],["fit","monitor_.history"])
prop("C10","Fitted models are valid models",
 "After any fit of a maximum-likelihood model with non-degenerate data in which every state received positive expected occupancy and outgoing transitions, the start distribution, every transition row, every categorical or multinomial emission row and every state's mixture weights are non-negative and sum to one, variances are positive and covariance matrices symmetric positive definite, and Poisson rates are non-negative. Such a fitted model can be used at once for scoring, decoding and sampling.",
 ["inputs","configurations","histories"],"all data sets, starts, families, priors and iteration counts",
 "Tests check shapes and sums after a few fits.",
 [B,H,U],[("row normalisation with all-zero rows",U+" normalize"),("covariance floors",H+" GaussianHMM._do_mstep"),("validation after the update",B+" fit")],["fit"])
prop("C11","Training preserves structural zeros",
 "If a start probability or a transition probability is zero when an iteration of maximum-likelihood fitting begins, it is exactly zero afterwards, whatever the data and the priors. Left-right and other sparse topologies therefore survive training.",
 ["inputs","histories","configurations"],"all zero patterns, data sets, priors, numbers of iterations, both implementations",
 "Tests fit one left-right model.",
 [B,C],[("masking of updates",B+" BaseHMM._do_mstep")],["fit"])
prop("C12","Only the selected parameters are initialised and trained",
 "Fitting changes only parameters whose code is listed in the trained set, apart from initialisation; initialisation overwrites only parameters whose code is listed in the initialisation set and otherwise only fills in parameters that are not yet set, so a user-provided parameter listed in neither set is returned bit for bit unchanged. Every trained parameter's update is the same whether or not other parameters are trained with it in that iteration, given the statistics of that iteration.",
 ["configurations","inputs","histories"],"all subsets of trained and initialised codes for every model family",
 "Tests try a few combinations of one family.",
 [B,H,V,E],[("initialisation gate",B+" _needs_init"),("update gates","every _do_mstep"),("statistics gates","every _accumulate_sufficient_statistics, _needs_sufficient_statistics_for_*")],["fit"])
prop("C13","Sequences are independent and the length split is validated",
 "For every data set given as concatenated sequences with lengths, scores, posteriors, decodings and fitted parameters equal those obtained by processing each sequence on its own (scores and statistics added, rows concatenated in order), and no information crosses a sequence boundary. Lengths whose total differs from the number of samples, and empty sequences, are rejected with an error; without lengths the data form one sequence.",
 ["inputs"],"all data sets and all splits",
 "Tests use one or two fixed splits.",
 [P,B,C],[("splitting",P+" split_X_lengths"),("per-sequence loops",B+" _score_log, _score_scaling, decode, _do_estep")],["score","score_samples","decode","fit"])
prop("C14","Sampling follows the model",
 "Sampling n steps returns n observations and n states in which the first state is the requested one or is drawn from the start distribution, each later state is drawn from the transition row of its predecessor, and each observation from the emission distribution of its own state, each draw independent given the state. States, transitions and symbols of probability zero are never produced, and continuing from the last state continues the chain.",
 ["inputs","configurations"],"all models and random draws",
 "Tests draw a few samples with fixed seeds and check shapes or rough statistics.",
 [B,E,H],[("chain",B+" sample"),("emissions",E+" _generate_sample_from_state")],["sample"])
prop("C15","Emission likelihoods are the exact densities of each family",
 "For every model family and covariance type, the per-frame, per-state (log) likelihood used everywhere equals the family's density or mass function at that frame: multivariate normal with the state's mean and covariance, the mixture of such normals, the categorical probability of the symbol, the multinomial and the Poisson mass function. Negative symbols and symbols beyond the model's alphabet are rejected instead of being scored as other symbols.",
 ["inputs","configurations"],"all parameters, data and covariance types",
 "Tests compare a few points with reference densities.",
 [S,E,U],[("normal log densities",S),("family likelihoods",E+" _compute_likelihood/_compute_log_likelihood")],["score","score_samples"])
prop("C16","Covariances keep one meaning across their stored and full forms",
 "For each covariance type, the covariances read from a model are the values that were assigned (after broadcasting to the documented shape): full matrices per state for Gaussian models, in whose diagonal, spherical and tied cases the full form is the diagonal matrix of the variances, the scalar variance times identity, or the shared matrix. Assigning, reading, initialising and fitting agree on that representation and sampling and scoring use the same covariance.",
 ["inputs","configurations"],"all covariance types, shapes and values",
 "Tests round-trip a few values per type.",
 [E,H,U,V],[("expansion",U+" fill_covars"),("getter and setter",H+" GaussianHMM.covars_"),("compression for fitting",U+" distribute_covar_matrix_to_match_covariance_type")],["covars_","sample","score"])
prop("C17","Invalid parameters are rejected before use",
 "Before fitting, scoring, decoding or sampling, a model whose start or transition probabilities have the wrong shape or do not sum to one (within the documented tolerance; for the variational models, which derive them, whose priors or posteriors have the wrong shape), whose covariance type is unknown, or whose covariances have the wrong shape, are asymmetric or not positive definite, is rejected with an error; every model that meets these conditions is accepted. The same holds for wrong-shaped emission tables and mixture weights.",
 ["inputs","configurations"],"all parameter values and shapes",
 "Tests try a few invalid values of some parameters.",
 [B,U,H,P],[("chain parameters",B+" _AbstractHMM._check/_check_sum_1"),("covariances",U+" _validate_covars"),("families",H+" _check")],["fit","score","decode","sample"])
prop("C18","Fitting stops exactly when its convergence rule says so",
 "Fitting performs at least one and at most the maximum number of iterations, stops after the first iteration whose gain in the monitored objective is below the tolerance (or is a decrease, or once the maximum is reached), and records exactly one history entry per iteration performed, in order, each being the objective under the parameters that entered that iteration. Convergence is reported if and only if the last gain was below the tolerance or the maximum was reached, and each fit starts with a fresh record.",
 ["inputs","histories"],"all data, tolerances, iteration limits and sequences of objective values",
 "Tests check one decreasing and one converged history.",
 [B],[("convergence rule",B+" ConvergenceMonitor"),("loop",B+" fit")],["monitor_","fit"],[("history","objective per iteration",B+" ConvergenceMonitor")])
prop("C19","AIC and BIC use the exact likelihood and number of free parameters",
 "For every model family and covariance type, AIC equals minus twice the log likelihood of the data plus twice the number of free parameters, and BIC equals minus twice the log likelihood plus the number of free parameters times the log of the number of samples, where free parameters count the start (n-1), transition n(n-1) and emission parameters of all states exactly. Models without such a count refuse.",
 ["inputs","configurations"],"all families, covariance types, sizes and data",
 "Tests compare the order of AIC/BIC for one or two models.",
 [B,E],[("criteria",B+" aic/bic"),("counts",E+" _get_n_fit_scalars_per_param")],["aic","bic"])
prop("C20","Variational fitting performs the exact mean-field updates",
 "One iteration of variational fitting replaces each trained posterior by the exact conjugate update: Dirichlet counts equal to prior plus expected counts, and for Gaussian emissions the normal-Wishart (or its diagonal, spherical and tied forms) parameters from prior and expected moments, the expectations being taken under the sub-normalised parameters exp(E[log parameter]) of the posteriors that entered the iteration. The start, transition, symbol and mean parameters used for scoring and decoding are the means of those posteriors, and the covariance is the inverse of the mean precision.",
 ["inputs","configurations"],"all variational models, data sets, splits, priors, covariance types, trained subsets",
 "Tests check monotone bounds on a few fixed data sets.",
 [B,V],[("sub-normalised parameters",B+" _estep_begin, "+V+" _compute_subnorm_log_likelihood"),("updates",V+" _do_mstep")],["fit"])
prop("C21","The variational objective is the evidence lower bound and never decreases",
 "The objective recorded at each iteration of variational fitting equals the log normaliser of the sub-normalised chain on the data minus the Kullback-Leibler divergences of all current posteriors from their priors (leaving out the constant power of two pi of normal densities), and never decreases from one iteration to the next up to rounding when all parameters are trained.",
 ["inputs","histories","configurations"],"all variational models, data sets and iterations",
 "Tests watch the bound on a few seeds.",
 [B,V,K],[("bound",B+" and "+V+" _compute_lower_bound")],["fit","monitor_.history"])
prop("C22","Divergences between Dirichlet, normal, Wishart and gamma laws are exact",
 "The closed-form divergence functions return the Kullback-Leibler divergence of the first distribution from the second for every pair of valid parameters: zero for equal parameters, never negative beyond rounding, and equal to the defining integral.",
 ["inputs"],"all valid parameter pairs and dimensions",
 "Tests compare a few points with stored numbers.",
 [K],[("closed forms",K)],["kl_dirichlet","kl_normal_distribution","kl_multivariate_normal_distribution","kl_gamma_distribution","kl_wishart_distribution"])
prop("C23","Native kernels never access memory out of bounds",
 "Called with any arrays of any shapes, the native routines either raise an error or read and write only inside the arrays they were given or allocated, and fill every element of what they return; inconsistent or empty shapes are rejected with an error, never answered with garbage or a crash.",
 ["inputs"],"all array shapes and contents",
 "Tests only pass consistent shapes.",
 [C],[("shape checks","ext/_hmmc.cpp every kernel")],["forward_log","forward_scaling","backward_log","backward_scaling","compute_log_xi_sum","compute_scaling_xi_sum","viterbi"])
prop("C24","The caller's data and queried models are never modified",
 "No operation modifies the arrays passed to it (observations, lengths), and scoring, posteriors, decoding, sampling and information criteria leave the values of the model's parameters unchanged. Arrays read from a model or returned by an operation are not silently changed by later queries.",
 ["inputs","histories","configurations"],"all operations, data and families",
 "Tests rarely compare inputs before and after a call.",
 [B,E,U,S],[("in-place arithmetic on fresh arrays only",E+" _accumulate_sufficient_statistics; "+U+" normalize, log_normalize")],["fit","score","decode","sample","predict_proba"])
prop("C25","Results are a deterministic function of the inputs and the random state",
 "With an integer random state, fitting and sampling are deterministic: repeating the operation on the same data with an equally configured model, or refitting the same model after resetting its parameters, gives identical results, whatever the state of the global random generator, which is never consumed or reseeded. The random state given by the user is not replaced by an operation.",
 ["inputs","histories","configurations"],"all families, seeds, call histories",
 "Tests fix seeds but do not interleave other users of randomness.",
 [B,H,E,V],[("seeding",H+" _init, "+V+" _init, "+B+" sample")],["fit","sample"])
prop("C26","The reported stationary distribution is stationary",
 "For every irreducible transition matrix, the stationary distribution reported by the model is a probability vector that is left unchanged by one step of the chain, up to rounding.",
 ["inputs"],"all irreducible transition matrices, periodic ones included",
 "Tests try one or two matrices.",
 [B],[("left eigenvector for eigenvalue one",B+" get_stationary_distribution")],["get_stationary_distribution"])
prop("C27","Invalid training data are rejected before any parameter changes",
 "Fitting rejects with an error data whose number of features contradicts the model, categorical data that are not non-negative integers below a given alphabet size, multinomial data that are not non-negative integer counts with the given number of trials per row; valid data are accepted, and unset sizes are taken from them (alphabet size = largest symbol plus one, trials = row totals).",
 ["inputs","configurations"],"all data arrays and declared sizes",
 "Tests try one invalid example per family.",
 [E,B],[("data checks",E+" _check_and_set_n_features; "+B+" _check_and_set_n_features")],["fit"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P_: f.write(json.dumps(p)+"\n")
print(len(P_))
