TRUST = "Trusts: the graph interpreter (cross-checked on concrete runs of the compiled graph in every case), z3, exact real arithmetic in place of floating point. "

P("P01", "Kalman filter moments are exact Gaussian conditioning",
  "For every linear Gaussian state space model and every data set, the filtered, predicted and one-step-ahead observation means and covariances that the standard, square-root and univariate Kalman filters return are the exact conditional moments of the states and observations given the data seen so far. The three filters therefore agree with each other wherever each is defined.",
  ["inputs", "configurations"],
  "All real values of data, initial moments, intercepts and system matrices (covariances positive definite), for 1-3 states, 1-2 series and 1-3 steps, with the symbolic inputs of each case listed in its bound; all three filters.",
  "Tests compare a handful of random matrices against statsmodels to a tolerance; an error that needs several observed series, particular zero patterns, a constant term or a particular noise structure passes unseen, and no number of samples covers all real inputs.",
  [KF + "kalman_filter.py", KF + "utilities.py"],
  [("filter recursions", KF + "kalman_filter.py:BaseFilter.build_graph, kalman_step, update, predict"), ("numerical stabilisation", KF + "utilities.py")],
  TRUST + "Covers every input within the stated sizes; a bounded result, not a proof for all dimensions.")

P("P02", "The filter log-likelihood is the exact predictive log density",
  "For every model and data set, the log-likelihood contribution reported for each time step is exactly the Gaussian log density of that step's observations under the one-step-ahead predictive distribution, for every filter type. Summed over time it is the log density of the whole series under the model.",
  ["inputs", "configurations"],
  "All real data, means, intercepts and (per case) covariances for 1-3 states, 1-3 series, 1-3 steps; three filters.",
  "The tests check it against statsmodels at fixed data of one series; normalising constants, determinants and quadratic forms of several series or of masked rows are not reached, and a wrong constant leaves samplers running.",
  [KF + "kalman_filter.py"], [("log density per step", KF + "kalman_filter.py:update")], TRUST)

P("P03", "Missing observations are marginalised, never treated as data",
  "When any subset of the observations at any time steps is missing, marked by NaN or by the chosen fill value, the filtered and predicted moments and the log-likelihood are exactly those of the model for the observed entries alone. The value used to mark missing entries never influences a result.",
  ["inputs", "histories"],
  "All missingness patterns over the bounded sizes (decided symbolically: each entry either equals the fill value or does not), with NaN patterns, custom fill values, three filters, 1-2 series, 2-3 steps.",
  "The number of missingness patterns is exponential in series and time; the tests use one or two, mostly with complete rows missing.",
  [KF + "kalman_filter.py", "pymc_extras/statespace/utils/data_tools.py"],
  [("masking of missing rows", KF + "kalman_filter.py:handle_missing_values")],
  TRUST + "The fill-value comparison is a symbolic branch, so both outcomes of every entry are explored.")

P("P04", "Smoothed moments are the exact full-sample conditional moments",
  "The smoothed state means and covariances equal the exact conditional moments of every state given the complete data, including state intercepts, time-varying matrices and missing observations. At the final step they coincide with the filtered moments.",
  ["inputs", "configurations"],
  "All real data, means and intercepts (and, per case, covariances, transition and noise matrices) for 1-3 states, 1-2 series, 2-4 steps; batch conditioning of the joint Gaussian is the oracle.",
  "Tests compare against statsmodels for a few fixed models without intercepts or time variation; off-by-one indexing in the backward pass is invisible with constant matrices.",
  [KF + "kalman_smoother.py"], [("backward recursion", KF + "kalman_smoother.py:KalmanSmoother")], TRUST + "Predicted covariances are assumed nonsingular.")

P("P05", "Time-varying system matrices act at their own time step",
  "When any combination of system matrices is given a time dimension, the filters use the matrix of step t for exactly the step t: observation matrices for the observation at t, transition matrices for the move from t to t+1. Results equal those of the exact recursion with the matrices so aligned, whichever subset is time varying.",
  ["inputs", "configurations"],
  "Every single time-varying matrix and several combinations (thorough: every pair) out of seven, three filters, symbolic data, means and intercepts, 2-3 steps.",
  "There are 2^7 combinations of time-varying matrices per filter, and the tests exercise almost none; an argument-order mistake shows only for particular combinations.",
  [KF + "kalman_filter.py", "pymc_extras/statespace/core/statespace.py"],
  [("sorting of sequences and non-sequences", KF + "kalman_filter.py:BaseFilter.unpack_args")], TRUST)

P("P06", "SARIMA models represent the seasonal ARIMA difference equation",
  "For every ARIMA and seasonal order, differencing order and state layout, the state space model's response to shocks and its free evolution satisfy the seasonal ARIMA difference equation with the given coefficients, including the products of seasonal and non-seasonal terms. Noise variances are the squares of the given standard deviations, and user-supplied initial moments are used unchanged; under stationary initialization the initial moments are the stationary ones.",
  ["inputs", "configurations"],
  "All real coefficients for 33 (thorough: 39) combinations of orders and layouts; responses for 2*states+1 lags, which determines the transfer function of the system.",
  "Tests fix a few orders and random coefficients; cross terms and differencing blocks depend on the order, and each order is a different matrix layout.",
  ["pymc_extras/statespace/models/SARIMAX.py", "pymc_extras/statespace/models/utilities.py"],
  [("matrix layout", "SARIMAX.py:BayesianSARIMA.make_symbolic_graph"), ("transition layout with differencing", "utilities.py:make_SARIMA_transition_matrix")], TRUST)

P("P07", "VARMA models represent the vector ARMA difference equation",
  "For every number of series and every AR and MA order, the model's response to each shock and its free evolution satisfy the vector ARMA difference equation with coefficient [i, lag, j] carrying series j at that lag to series i. The shock covariance and initial moments are the given (or, under stationary initialization, the stationary) ones and measurement noise is uncorrelated across series.",
  ["inputs", "configurations"],
  "All real coefficients and covariances for 1-3 series and 14 (thorough: 18) orders.",
  "Tests compare a few orders with statsmodels on fixed parameters; transposed or misplaced coefficient blocks need several series and particular orders.",
  ["pymc_extras/statespace/models/VARMAX.py"], [("companion layout", "VARMAX.py:BayesianVARMAX.make_symbolic_graph")], TRUST)

P("P08", "ETS models represent the innovations-form exponential smoothing equations",
  "For every error-trend-season configuration, number of series and parameterisation, the model's observations follow the additive exponential smoothing recursions from the given initial level, trend and seasonal values, in both the starred and the transformed parameterisation. One innovation per series drives all of its states. Under stationary initialization the initial covariance is the stationary one of the dampened system.",
  ["inputs", "configurations"],
  "All real smoothing parameters, initial values and covariances; 7 orders x 1-2 series x 2 parameterisations (thorough: longer periods and 3 series), two seasonal cycles plus 4 steps.",
  "Tests compare selected configurations at fixed parameter values; the R[0,0] correction and the per-series blocks are parameter-dependent identities.",
  ["pymc_extras/statespace/models/ETS.py"], [("matrix layout", "ETS.py:BayesianETS.make_symbolic_graph")], TRUST)

P("P09", "Structural components follow their documented equations and add up",
  "Each structural component (trend, seasonal in time or frequency domain, cycle, autoregression, regression, measurement error) generates exactly the path and shock response of its documented equations, for all parameter values. A sum of components has as its observed path the sum of the components' paths and as its noise the independent noises of its components, in any order of addition, and components can be built or added repeatedly without changing.",
  ["inputs", "programs", "configurations"],
  "All real parameters, initial values and exogenous data; about 33 single components and 16 sums (thorough: 8 larger ones), 4-11 steps.",
  "The set of component sums is infinite and tests sample a few with fixed parameters; placement errors in block matrices and shared mutable state appear only for particular sums and orders of construction.",
  ["pymc_extras/statespace/models/structural.py", "pymc_extras/statespace/core/representation.py"],
  [("component equations", "structural.py:*Component.make_symbolic_graph"), ("sum of components", "structural.py:Component.__add__"), ("assembly", "structural.py:StructuralTimeSeries")], TRUST)

SS = "pymc_extras/statespace/"
STRUST = "Trusts: the graph interpreter (cross-checked on concrete runs of the compiled graph in every case), z3, exact real arithmetic, PyMC's forward sampling of the model it is given. A user-defined model with every matrix in use stands for all models. "
P("P10", "A model built from data has the log density and filter outputs of its matrices",
  "Building a state space model on a data set yields a PyMC model whose log density is exactly the Gaussian log density of the data under the model's matrices, at every parameter value, for every accepted kind of data, filter, exogenous data and pattern of missing values. The filter and smoother outputs stored with it, their dimensions and the time coordinate belong to the same data and matrices; data or declarations that do not fit are refused.",
  ["inputs", "configurations"],
  "All real parameters and data of a two-state model with 1-2 series, 2-3 steps, three filters, six kinds of data, two exogenous data sets, custom missing-value markers, with and without coordinates.",
  "Tests fit a few library models and compare shapes or one likelihood value; a data row, parameter or covariance that reaches the likelihood wrongly for one kind of data still gives a finite likelihood.",
  [SS + "core/statespace.py", SS + "utils/data_tools.py", SS + "filters/distributions.py"],
  [("model building", SS + "core/statespace.py:PyMCStateSpace.build_statespace_graph"), ("data registration", SS + "utils/data_tools.py:register_data_with_pymc"), ("observed distribution", SS + "filters/distributions.py:SequenceMvNormal")], STRUST)

P("P11", "Conditional and unconditional samples follow the state space model's law",
  "Samples drawn conditionally on data have, for each of the filtered, predicted and smoothed outputs, exactly the conditional law of the states and of the observations (loading, intercept and measurement noise included) at every time step. Unconditional samples have exactly the joint law of states and observations over all their time steps, including time-varying matrices and exogenous data row by row, and sampled system matrices are those of the model at each draw.",
  ["inputs", "configurations"],
  "All real parameters of a two-state model with 1-2 series and up to 5 steps (joint means and covariances of all draws compared element by element); each matrix time varying alone and all together; three filters, missing data, new data, prior and posterior groups.",
  "The tests check shapes, names and absence of NaN of random draws; a wrong mean, a lagged matrix row or a missing intercept leaves plausible samples.",
  [SS + "core/statespace.py", SS + "filters/distributions.py"],
  [("conditional draws", SS + "core/statespace.py:_sample_conditional"), ("unconditional draws", SS + "core/statespace.py:_sample_unconditional"), ("joint simulation", SS + "filters/distributions.py:LinearGaussianStateSpace")], STRUST)

P("P12", "Forecasts follow the model's law from the chosen start and filter output",
  "A forecast has exactly the joint law of future states and observations of the model started from the chosen filter output at the chosen time, over exactly the requested time steps, for positional, negative, labelled and default starts on integer or date indices. Exogenous scenario values reach their own series and time step whatever container or column order carries them; inconsistent requests are refused and the caller's scenario is left unchanged.",
  ["inputs", "configurations"],
  "All real parameters of a two-state model with 1-2 series, 3 data rows, each start, 2-3 steps, each filter output and filter type; 17 scenario containers; about 70 combinations of start, periods and end.",
  "Tests look at index lengths and the absence of NaN for a few combinations; starting one row off, from another filter output, or with permuted exogenous columns gives equally plausible draws.",
  [SS + "core/statespace.py", SS + "filters/distributions.py"],
  [("forecast", SS + "core/statespace.py:forecast"), ("index of the forecast", SS + "core/statespace.py:_build_forecast_index"), ("scenario data", SS + "core/statespace.py:_validate_scenario_data, _finalize_scenario_initialization")],
  STRUST + "An integer end is exclusive, as the repository's tests have it; one known finding (the index of a scenario frame is overwritten).")

P("P13", "Impulse responses are the model's own response to the stated shock",
  "The impulse response function is, for every parameter value, the model's state recursion started at zero and driven only by the stated shock: drawn with the model's own or the given covariance, of a given size at the first step, or following a given trajectory, over exactly the requested steps. Contradictory shock descriptions are refused and further arguments reach the sampler.",
  ["inputs", "configurations"],
  "All real parameters and shocks of a two-state model with 1-2 shocks and 1-7 steps (40 for the default length): joint mean and covariance where the shock is drawn, the exact path where it is given.",
  "The only test looks for the absence of NaN; a response that is off by one step, uses another matrix or the wrong covariance is finite too.",
  [SS + "core/statespace.py"],
  [("impulse response", SS + "core/statespace.py:impulse_response_function")], STRUST + "A shock size is the first shock itself, as the code has it; one known finding (orthogonalize_shocks).")

P("P14", "State space matrices hold exactly what was assigned, where it was assigned",
  "After any history of assignments of whole matrices, elements, rows, slices or index arrays, static or with a time dimension, by arrays or tensors, through the constructor or by key, every matrix of the representation reads back as the values last assigned to each of its elements, whole or in part; other matrices and copies are unaffected, and a matrix of the wrong shape is refused without any effect.",
  ["inputs", "histories"],
  "All real values; all nine matrices with 2 series, 3 states, 2 shocks and up to 4 time steps; 7-14 index forms each alone, every history of 2 (3 for three matrices, all in the thorough tier) out of 4-6 kinds of assignment.",
  "Every model is written through this class and tests touch five index forms with constants; an assignment that lands on other elements gives another valid model.",
  [SS + "core/representation.py"],
  [("reading and assigning", SS + "core/representation.py:__getitem__, __setitem__"), ("constructor", SS + "core/representation.py:__init__")], STRUST)

MM = "pymc_extras/model/marginal/"
MTRUST = "Trusts: PyMC's own joint log density as the oracle, the graph interpreter (cross-checked on concrete runs), z3, exact real arithmetic. "
P("P15", "Marginalizing discrete variables preserves the joint density",
  "For every model the transformation accepts, the log density of the model with finite discrete variables marginalized is exactly the log of the sum, over all assignments of those variables, of the original joint density. This holds for any batch shape, axis order, broadcasting and indexing between a marginalized variable and its dependents, for several dependents, and for nested marginalized variables; a model whose batches are mixed must be refused. The element-wise log density (sum=False) of the first dependent holds, at the position of its elements, the density of each element of the marginalized variable.",
  ["inputs", "programs"],
  "All real values of the remaining variables and parameters, for about 70 model programs (batches up to 2x2x2, 2-3 categories, up to two marginalized variables) covering reductions, permutations, broadcasting, indexing, multivariate and symbolic dependents.",
  "Models are programs: the space of shape and axis manipulations between variables is unbounded and the tests hold a couple of dozen; a misaligned or repeated dimension gives a finite, plausible, wrong density.",
  [MM + "distributions.py", MM + "graph_analysis.py", MM + "marginal_model.py"],
  [("sum over the domain", MM + "distributions.py:finite_discrete_marginal_rv_logp"), ("batch alignment", MM + "distributions.py:reduce_batch_dependent_logps"), ("which dimensions reach a dependent", MM + "graph_analysis.py:subgraph_batch_dim_connection")], MTRUST)

P("P16", "Marginalizing a Markov chain gives the hidden Markov model likelihood",
  "For every model in which a discrete Markov chain is marginalized, the resulting log density is exactly the log of the sum over all state paths of initial, transition and emission probabilities. It holds for any emission layout, batch of chains, several emission streams, and together with other marginalized variables.",
  ["inputs", "programs", "histories"],
  "All transition and initial probabilities, emission parameters and data for 2-3 states, 2-4 steps, batches of 2 chains and about 25 emission layouts.",
  "The forward recursion has to agree with an exponential sum over paths for every transition matrix; tests use a few numeric examples with one emission.",
  [MM + "distributions.py", "pymc_extras/distributions/timeseries.py"],
  [("forward algorithm", MM + "distributions.py:marginal_hmm_logp")], MTRUST)

P("P17", "recover_marginals returns the exact conditional probabilities",
  "For every marginalized variable, the log probabilities returned by recover_marginals are the normalised conditional probabilities of each value of that variable given all remaining values of the draw, with other marginalized variables summed out, in the order of the domain. Samples are drawn from exactly those probabilities and returned as values of the domain, and each chain and draw keeps its own result.",
  ["inputs", "programs", "configurations"],
  "All real values of the remaining variables for about 27 models with one or two marginalized variables, batches up to 2x2; bookkeeping over 2 chains x 3 draws replayed concretely.",
  "Tests check a few models, mostly with one marginalized variable; when several are marginalized the terms that must enter the conditional depend on the graph.",
  [MM + "marginal_model.py"], [("conditional of a marginalized variable", MM + "marginal_model.py:MarginalModel.recover_marginals")], MTRUST + "The compiled functions are intercepted where pytensor.function is called.")

P("P18", "Marginalizing leaves the original model intact and can be undone",
  "Marginalizing variables returns a new model and leaves the original's variables, dims, coordinates, values, transforms and log density unchanged. Unmarginalizing, by variable or by name, gives back the original joint log density, variables and dims, and a clone never shares state with the model it was made from.",
  ["inputs", "programs", "histories"],
  "All real values of the variables for about 15 models given by name and by variable (thorough: all programs of P15).",
  "Aliased dictionaries and lost dims only show after a second use of the same model, which tests never make.",
  [MM + "marginal_model.py"], [("cloning", MM + "marginal_model.py:MarginalModel.from_model"), ("undo", MM + "marginal_model.py:MarginalModel.unmarginalize")], MTRUST)

DI = "pymc_extras/distributions/"
DTRUST = "Trusts: the documented density and distribution formulas, numpy's elementary generators, the graph interpreter (cross-checked on concrete runs), z3, exact real arithmetic; special functions are uninterpreted apart from their recurrences. "
P("P19", "DiscreteMarkovChain density, draws and initial point describe one chain",
  "The log density of a discrete Markov chain is the initial density of the first states plus the log transition probabilities of the following ones, for any number of states, lags, steps, batch dimensions and whichever of transition matrix or logits is given; values outside the states and invalid parameters are rejected. Draws follow exactly that law, and the initial point of a model containing a chain is a possible path of it with the chain's shape.",
  ["inputs", "configurations", "histories"],
  "All transition matrices, initial distributions and values (including values outside the domain) for 2-3 states, 1-3 lags, 2-4 steps and batch shapes up to 2x2; the law of the draws is computed over every outcome of the underlying categorical draws.",
  "The tests compare a few numeric chains; the alignment of batches, lags and initial states is a property of all shapes, and the distribution of the draws cannot be settled by a finite sample.",
  [DI + "timeseries.py"], [("log density", DI + "timeseries.py:discrete_mc_logp"), ("draws", DI + "timeseries.py:DiscreteMarkovChain.rv_op"), ("initial point", DI + "timeseries.py:discrete_markov_chain_moment")], DTRUST, )

P("P20", "Continuous distributions agree with their documented law",
  "For the generalized extreme value, Chi and Maxwell distributions, the log density and the log distribution function are those of the documented law for every value and parameter, including values outside the support and invalid parameters, the distribution function is the integral of the density, draws are transformations whose law has that density, and the default initial value lies where documented.",
  ["inputs"],
  "All real values, locations, scales and shapes (for GenExtreme: negative, zero and positive shape separately), scalar and batched.",
  "Tests compare against scipy on a grid of positive scale and shape; support edges, invalid parameters and the consistency of distribution function, density and draws hold for all reals.",
  [DI + "continuous.py"], [("GenExtreme", DI + "continuous.py:GenExtreme"), ("Chi and Maxwell", DI + "continuous.py:Chi, Maxwell")], DTRUST)

P("P21", "Discrete distributions agree with their documented law",
  "For the generalized Poisson, beta negative binomial and Skellam distributions, the log density is that of the documented law at every value and parameter, including limiting parameters, values outside the support and invalid parameters. Draws follow exactly that law, element by element, for any shape of the parameters and any requested size.",
  ["inputs", "histories"],
  "All real parameters; draws of the generalized Poisson are executed symbolically over every branching history with totals up to 4 and every uniform up to the distribution function at 4, the others as compositions of elementary draws.",
  "Random generation is tested by comparing moments or a few histograms of finite samples for some parameters, which cannot separate close laws; generators with loops depend on branches samples rarely reach.",
  [DI + "discrete.py"], [("generalized Poisson draws", DI + "discrete.py:GeneralizedPoissonRV.rng_fn"), ("densities", DI + "discrete.py:logp methods")], DTRUST)

P("P22", "Automatic reparametrization leaves the model's joint density unchanged",
  "vip_reparametrize leaves the given model alone and returns one whose chosen variables keep names, dims and values: the joint log density at every value of the new free variables and every parametrization weight equals that of the original model at the implied variables plus the log Jacobian of the change of variables, and the variables themselves are the documented interpolation between the centred and the non-centred form. Weights are set, read and truncated as documented; unsupported distributions and transforms are refused.",
  ["inputs"],
  "All real values of the variables, parameters and weights strictly between 0 and 1 for twenty models (scalars, vectors, matrices, nested to three levels, transformed scales, potentials, data); weights 0 and 1 at concrete values.",
  "Tests compare a few logp values or fit one model; a density wrong by a factor depending on weights or on the scale still samples, with a different posterior.",
  ["pymc_extras/model/transforms/autoreparam.py"], [("reparametrization rules", "pymc_extras/model/transforms/autoreparam.py:_"), ("weights", "pymc_extras/model/transforms/autoreparam.py:VIP")], DTRUST)

P("P23", "The R2D2M2CP prior splits the outcome's variance as documented",
  "For every combination of arguments, each coefficient of the R2D2M2CP prior has second moment share times r2 times the outcome's variance over the regressor's variance and the given probability of being positive, certain signs give fixed coefficients of that size, the residual scale is the outcome's times sqrt(1 - r2), and centred and non-centred forms are the same prior. r2, shares and probabilities are fixed where given without uncertainty and otherwise follow the documented Beta and Dirichlet laws, with the requested dims; combinations without meaning are refused.",
  ["inputs", "configurations"],
  "All real scales, r2, importances, concentrations and values of the random variables; 11 ways of giving sign probabilities x 6 of giving importances x centred or not x r2 random or not x 1-2 dims of length 1-3.",
  "The existing tests only check that variables exist, that shapes match and that the log density is finite.",
  [DI + "multivariate/r2d2m2cp.py"], [("coefficients", DI + "multivariate/r2d2m2cp.py:_R2D2M2CP_beta"), ("shares and probabilities", DI + "multivariate/r2d2m2cp.py:_phi, _psi")], DTRUST)

IN = "pymc_extras/inference/"
P("P24", "find_MAP optimizes and reports the model's own density",
  "For every model of continuous variables, the function find_MAP hands to the optimizer is minus the model's log density (transformed variables mapped back, no Jacobian terms), the gradient, Hessian and Hessian-vector product are its exact derivatives, and optimization starts at the model's initial point. At whatever optimum the optimizer returns, the report holds for every variable, transformed variable and deterministic the value it takes at that optimum, under its own name and shape.",
  ["inputs", "configurations"],
  "Every real point of the unconstrained space and every direction, for the listed models of 1-6 free numbers (transformed and untransformed variables in either order, vectors with and without dims, simplex, interval, mutable data, deterministics, potentials) and the listed optimization methods with and without gradients, Hessians and products.",
  "Tests optimise one or two models and compare the optimum; a wrong derivative only slows convergence, and a mixed-up order shows only in models whose variables differ.",
  [IN + "find_map.py"], [("derivatives and report", IN + "find_map.py:scipy_optimize_funcs_from_loss, find_MAP")], TRUST)

P("P25", "The Laplace approximation is the Gaussian of the model's own curvature",
  "For every model of continuous variables, fit_laplace (and fit(method='laplace')) reports as mean the optimum and as covariance the (jittered) inverse of the exact Hessian of minus the log density at it, each row and column labelled with the entry it belongs to, in the original space without Jacobians or in the unconstrained space with them. Posterior draws come from that Gaussian, and every free variable and deterministic of a draw is the value implied by that draw, with the model's dims and coordinates, for every number of chains and draws, and for models given as an argument or by context.",
  ["inputs", "configurations"],
  "Every optimum, every drawn vector, symbolic second derivatives; the listed models of 1-6 free numbers, 1-2 chains of 1-3 draws, both spaces, with or without reported transformed values and raw result.",
  "Tests use two models whose variables are declared in the lucky order and compare averages of draws; the curvature of other declarations, Jacobians and label order are never compared.",
  [IN + "laplace.py", IN + "find_map.py", IN + "fit.py"],
  [("mean and curvature", IN + "laplace.py:fit_mvn_to_MAP"), ("draws", IN + "laplace.py:sample_laplace_posterior, laplace_draws_to_inferencedata"), ("labels", IN + "laplace.py:add_fit_to_inferencedata")], TRUST)

P("P26", "A prior made from a posterior is the Gaussian with its sample moments",
  "For every posterior and every choice of variables, prior_from_idata creates variables that are, jointly and in the space of the given transforms, a linear map of independent standard normals whose mean and covariance are the sample mean and covariance of the draws over all chains; each variable takes its own entries in its own shape, mapped back by its transform, under the requested name and dims, whatever the order of dimensions in the stored posterior.",
  ["inputs", "configurations"],
  "Every real draw (1x3 and 3x3 chains by draws) and every value of the standard normals, for 12 sets of 1-3 variables: scalars, vectors, matrices, with dims, new names, log, log-odds and simplex transforms.",
  "The existing tests check names, shapes and that sampling works; the moments of the prior and which entry belongs to which variable are never compared.",
  ["pymc_extras/utils/prior.py"], [("moments", "pymc_extras/utils/prior.py:_flatten, _mean_chol"), ("variables", "pymc_extras/utils/prior.py:_mvn_prior_from_flat_info")], TRUST)

P("P27", "Latent GP approximations have the covariance and mean they stand for",
  "For every kernel, mean function and set of points, ProjectedProcess has inducing values with the kernel's covariance (plus jitter), a prior that is their projection plus the mean, and a conditional that is the exact Gaussian conditional given them. KarhunenLoeveExpansion has a prior with the given mean whose covariance is the part of the kernel's spectrum it keeps: the leading n_eigs eigenvalues, or the fewest that explain more than variance_limit; its conditional uses the pseudo-inverse of that part. Conditionals take the dims they are given.",
  ["inputs", "configurations"],
  "Every symmetric positive definite kernel matrix, mean and base normals, for 1-3 points, 1-2 inducing points, 1-2 new points; every eigenvector matrix and ascending spectrum of 2-3 points for n_eigs 1-3; five spectra of 3-4 points for variance limits.",
  "The repository has no test of this module at all.",
  ["pymc_extras/gp/latent_approx.py"], [("inducing points", "pymc_extras/gp/latent_approx.py:ProjectedProcess"), ("spectrum", "pymc_extras/gp/latent_approx.py:KarhunenLoeveExpansion")], TRUST)

P("P28", "A histogram potential is the log likelihood of the binned data",
  "For every data set and distribution, histogram_approximation adds a potential whose sum over each column is the log likelihood of that column: exactly, for integer data (with min_count, of the values that occur at least that often in all the data); with each value standing at the middle of its quantile bin, for real data; and with zeros in a bin of their own at zero under zero_inflation.",
  ["inputs", "configurations"],
  "Every real data set of 3-4 values in one or two columns (all orders and ties explored), every polynomial log density of degree up to 3 and every Normal; 3 or 5 quantiles, min_count 2.",
  "Tests check shapes and that counts add up to the sample size for random data; which value a count belongs to is never compared.",
  [DI + "histogram_utils.py"], [("bins and counts", DI + "histogram_utils.py:discrete_histogram, quantile_histogram"), ("potential", DI + "histogram_utils.py:histogram_approximation")], DTRUST)

P("P29", "SMC targets the model's own prior and likelihood and reports its variables",
  "For every model of continuous variables, sample_smc_blackjax gives the tempered sampler a log prior and a log likelihood that are exactly the model's own (transformed variables with their Jacobian; potentials with the likelihood) at every particle, a population drawn from the model's prior in the unconstrained space, and the requested kernel settings. Whatever particles come back, the report holds for each particle the value every variable and deterministic takes at it, under its own name, shape, dims and coordinates, for variables of any shape and models given as an argument or by context.",
  ["inputs", "configurations"],
  "Every real value of every particle; 2-3 particles; the sixteen models of P24 and P30 (scalars, vectors, matrices, rows, columns, axes of length one, transforms, simplex, data, potentials, deterministics), HMC and NUTS.",
  "Tests run one or two models with vectors and scalars and compare averages of draws; a shape that is broadcast or a term counted twice still samples.",
  [IN + "smc/sampling.py"], [("densities of particles", IN + "smc/sampling.py:get_jaxified_particles_fn"), ("population", IN + "smc/sampling.py:initialize_population, blackjax_particles_from_pymc_population"), ("report", IN + "smc/sampling.py:arviz_from_particles")], TRUST + "BlackJAX and PyMC's translation to JAX are trusted. ")

P("P30", "Pathfinder maximises the model's log density and reports its variables",
  "For every model of continuous variables, fit_pathfinder (and fit(method='pathfinder')) gives the algorithm the model's log density of transformed variables with their Jacobian, at every point, and starts it at the model's initial point. Whatever points it returns, the report holds for each of them the value every variable and deterministic takes at it, under its own name, shape, dims and coordinates.",
  ["inputs", "configurations"],
  "Every real point of the unconstrained space, 1-3 points, sixteen models of 1-7 free numbers with scalars, vectors, matrices, transforms, simplex, data, potentials and deterministics; model given as an argument or by context.",
  "The only test fits one model with two scalar variables and compares means to one digit.",
  [IN + "pathfinder.py", IN + "fit.py"], [("density", IN + "pathfinder.py:fit_pathfinder"), ("report", IN + "pathfinder.py:convert_flat_trace_to_idata")], TRUST + "BlackJAX and PyMC's translation to JAX are trusted. ")

P("P31", "Model builders fit, predict and persist the model they describe",
  "For LinearModel and for any ModelBuilder: fit samples the model of the given data and configuration (each row of predictors with its own target, whatever the indices) with the merged sampler settings and keeps the data; predict, predict_posterior and predict_proba give, for each row of new inputs, the posterior predictive (its mean over chains and draws for predict) at these inputs and every posterior draw, and sample_prior_predictive the prior's, whatever was predicted, extended, sampled, refitted or reloaded before. save and load restore the same model, configuration, identifier and posterior; files of another model or configuration are refused.",
  ["inputs", "histories", "configurations"],
  "All real predictors, targets, posterior draws, noise and parameter values; 1-3 rows, 2 chains of 2 draws, sequences of 1-6 calls of fit, predictions, prior predictions and reload; arrays, frames and series with any of six kinds of index; LinearModel and a user's builder with two predictors, arrays and dims in its configuration.",
  "Tests check shapes, names and that calls do not fail, at most one prediction after a fit; which inputs a prediction belongs to is never compared.",
  ["pymc_extras/model_builder.py", "pymc_extras/linearmodel.py"],
  [("fit and saved data", "pymc_extras/model_builder.py:fit, sample_model, save, load"), ("predictions", "pymc_extras/model_builder.py:predict, predict_posterior, sample_posterior_predictive, sample_prior_predictive"), ("regression", "pymc_extras/linearmodel.py:build_model, _data_setter")], TRUST + "PyMC's forward sampling and ArviZ are trusted. ")

P("P32", "A function decorated with as_model builds the model written in a context",
  "For every function, arguments and coords, each call of the decorated function returns a new model whose log density at every point, free variables, observed data, dims and coords are those of the same statements under pm.Model with the decorator's arguments; coords of one call extend and override the decorator's for that call only, whatever was called before.",
  ["inputs", "histories", "configurations"],
  "All real values of the variables and of the arguments; sequences of up to four calls of six decorated functions with and without coords given to the decorator, the call or both.",
  "Tests build one model once per way of giving coords.",
  ["pymc_extras/model/model_api.py"], [("decorator", "pymc_extras/model/model_api.py:as_model")], TRUST)

P("P33", "B-spline interpolation is the clamped uniform B-spline of its inputs",
  "For every evaluation point in [0, 1], number of coefficients and degree, the rows of the basis are the B-spline basis functions over clamped, equally spaced knots (they satisfy Marsden's identity and vanish outside their knots), and bspline_interpolation is the combination of the coefficients with these weights along the first axis, with the same result dense and sparse, n meaning n equally spaced points from 0 to 1, and exactly one of n and eval_points required.",
  ["inputs", "configurations"],
  "Every evaluation point, every Marsden parameter, all real coefficients (vectors and matrices); degrees 0-3, 1-4 knot intervals, 1-3 points.",
  "Tests compare shapes and that dense and sparse agree for two sizes.",
  ["pymc_extras/utils/spline.py"], [("basis", "pymc_extras/utils/spline.py:numpy_bspline_basis, BSplineBasis"), ("interpolation", "pymc_extras/utils/spline.py:bspline_interpolation")], TRUST + "SciPy's evaluation of a B-spline from knots and coefficients is trusted. ")
