"""Generates /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               hook_needed=None, **kw)))

INP, CFG, HIS = "inputs", "configurations", "histories"

prop("C01", "Entry-wise shrinkage is the exact proximal map of the l1 penalty",
 "For every real array and every threshold >= 0 (scalar or broadcastable array), entry-wise soft thresholding returns exactly the minimiser of threshold*|x| + (x-a)^2/2 for each entry, without modifying its input. The off-diagonal variant does the same off the diagonal and leaves every diagonal entry of every matrix of a batch exactly as given.",
 [INP], "all real entries and thresholds; matrices, vectors and batches",
 "tests compare two or three constant matrices; the claim is over all signs, ties and thresholds",
 ["regain/prox.py", "regain/math.py"],
 [("soft_thresholding", "regain/prox.py"), ("soft_thresholding_off_diagonal", "regain/prox.py"), ("fill_diagonal/get_diagonal/create_from_diagonal", "regain/math.py")])

prop("C02", "Group shrinkage is the exact proximal map of the column-wise l2 norm",
 "For every matrix or batch of matrices and every threshold > 0, column-wise group shrinkage sets a column to zero when its Euclidean norm does not exceed the threshold and otherwise scales it by (1 - threshold/norm), never producing a non-finite value, including for all-zero columns. The variant for symmetric matrices agrees with it, and thresholds given per matrix of a batch apply to that matrix only.",
 [INP], "all real entries, thresholds, batch sizes within the bound, zero columns included",
 "tests only use a handful of constants and never a zero column or per-time thresholds",
 ["regain/prox.py"],
 [("soft_thresholding_vector", "regain/prox.py"), ("blockwise_soft_thresholding", "regain/prox.py"), ("blockwise_soft_thresholding_symmetric", "regain/prox.py")])

prop("C03", "Log-det and trace proximal steps are exact and stay in the matrix cone",
 "For every symmetric matrix (or batch) and every positive step, the log-det proximal step returns the unique symmetric positive definite solution of its stationarity equation (X/step - inverse(X) + A = 0; for the second variant X - step*inverse(X) + A = 0). The nuclear-norm/PSD step keeps the eigenvectors, shrinks each eigenvalue by the threshold and clips at zero, so the result is symmetric positive semidefinite.",
 [INP], "all symmetric matrices, steps and thresholds; scalar steps and one step per matrix of a batch",
 "tests evaluate one diagonal or zero matrix; the optimality condition is universally quantified",
 ["regain/prox.py", "regain/math.py"],
 [("prox_logdet", "regain/prox.py"), ("prox_logdet_ala_ma", "regain/prox.py"), ("prox_trace_indicator", "regain/prox.py")])

prop("C04", "Every temporal penalty name selects a matching penalty and proximal map",
 "Each documented penalty name (laplacian, l1, l2, linf, node) is accepted and any other name is rejected with a ValueError. Each of laplacian, l1, l2 and linf selects the documented penalty together with the proximal map of exactly that penalty, for every matrix, batch and weight. Laplacian: squared Frobenius norm; l1: sum of absolute entries; l2: sum of column Euclidean norms; linf: sum over columns of the largest absolute entry.",
 [INP, CFG], "all penalty names; all matrices and weights",
 "tests check a single name/value; the pairing must hold for every name and matrix",
 ["regain/validation.py", "regain/prox.py", "regain/norm.py"],
 [("check_norm_prox", "regain/validation.py"), ("prox_laplacian / prox_linf / prox_node_penalty", "regain/prox.py"), ("l1_norm, l1_od_norm, vector_p_norm", "regain/norm.py")])

SOLV = "tests run the solver on all-zero data or only check shapes; the claim is over every covariance, parameter and reachable iterate"
prop("C05", "Static graphical lasso performs exact updates and stops at an optimum",
 "For every covariance, penalty, positive step parameter, over-relaxation value, starting matrix and step-adaptation history, each iteration of the static solver is the exact (over-relaxed) alternating-direction update of trace(SK) - logdet K + alpha*||K||_{off-diagonal,1}: log-det proximal step, over-relaxation, off-diagonal soft thresholding, dual update. Hence whenever both reported residuals are zero the returned matrix satisfies that problem's optimality conditions. The returned sparse matrix is symmetric.",
 [INP, CFG, HIS], "all covariances (2x2 and 3x3), parameters and iterate histories", SOLV,
 ["regain/covariance/graphical_lasso_.py", "regain/prox.py"],
 [("graphical_lasso", "regain/covariance/graphical_lasso_.py"), ("init_precision, objective", "regain/covariance/graphical_lasso_.py")])
prop("C06", "Latent graphical lasso performs exact updates of its documented problem",
 "For every covariance, parameters and adaptation history, each iteration of the static latent-variable solver is the exact alternating-direction update of its documented problem (log-likelihood of observed precision = sparse part - latent part, off-diagonal l1 on the sparse part, nuclear norm on a PSD latent part). Returned sparse and latent parts are symmetric, the latent part is PSD, the observed precision reported by the estimator is their difference, and the returned covariance is the pseudo-inverse of the returned sparse part.",
 [INP, CFG, HIS], "all covariances, parameters and iterate histories within the bounds", SOLV,
 ["regain/covariance/latent_graphical_lasso_.py"],
 [("latent_graphical_lasso", "regain/covariance/latent_graphical_lasso_.py")])
prop("C07", "Time-varying graphical lasso performs exact updates of its documented problem",
 "For every sequence of covariances, sample counts, parameters (scalar or per-time), penalty type and adaptation history, each iteration of the time-varying solver is the exact alternating-direction update of sum_t n_t*(trace(S_t K_t) - logdet K_t) + alpha*||K_t||_{off-diagonal,1} + beta*sum_t penalty(K_{t+1}-K_t). First, middle and last time points (and a single time point) are weighted correctly, and returned matrices are symmetric.",
 [INP, CFG, HIS], "1..4 time points, 2x2 matrices, all real data/parameters, every penalty", SOLV,
 ["regain/covariance/time_graphical_lasso_.py"],
 [("time_graphical_lasso", "regain/covariance/time_graphical_lasso_.py"), ("loss/objective", "regain/covariance/time_graphical_lasso_.py")])
prop("C08", "Latent time-varying graphical lasso performs exact updates of its problem",
 "For every sequence of covariances, sample counts, scalar parameters, penalty types for the sparse and the latent part and adaptation history, each iteration is the exact alternating-direction update of the documented latent time-varying problem (likelihood of sparse minus latent, off-diagonal l1, nuclear norm on PSD latent parts, separate temporal penalties on both). Sparse and latent temporal parameters never leak into each other, and the first, middle and last time points are weighted correctly.",
 [INP, CFG, HIS], "1..3 time points, 2x2 matrices, all real data/parameters, every pair of penalties", SOLV,
 ["regain/covariance/latent_time_graphical_lasso_.py"],
 [("latent_time_graphical_lasso", "regain/covariance/latent_time_graphical_lasso_.py")])
prop("C09", "Kernel time-varying graphical lasso penalises exactly the weighted pairs",
 "For every symmetric non-negative kernel, each iteration of the kernel time-varying solver is the exact alternating-direction update of the likelihood plus off-diagonal l1 plus the sum over all pairs of distinct times of kernel weight times penalty of their difference. Pairs at every time lag are included exactly once, and an array kernel given to the estimator is used as is.",
 [INP, CFG, HIS], "2..4 time points, all kernels, data and parameters", SOLV,
 ["regain/covariance/kernel_time_graphical_lasso_.py"],
 [("kernel_time_graphical_lasso", "regain/covariance/kernel_time_graphical_lasso_.py"), ("KernelTimeGraphicalLasso._fit", "regain/covariance/kernel_time_graphical_lasso_.py")])
prop("C10", "Kernel latent time-varying solver performs exact updates of its problem",
 "For every pair of symmetric non-negative kernels, each iteration of the kernel latent solver is the exact alternating-direction update of the likelihood of sparse minus latent, off-diagonal l1, nuclear norm on PSD latent parts, and two kernel-weighted pairwise temporal penalties, one per part. The two kernels and the two penalty types are never exchanged, at solver and at estimator level.",
 [INP, CFG, HIS], "2..3 time points, all kernels, data and parameters, penalty pairs", SOLV,
 ["regain/covariance/kernel_latent_time_graphical_lasso_.py"],
 [("kernel_latent_time_graphical_lasso", "regain/covariance/kernel_latent_time_graphical_lasso_.py"), ("KernelLatentTimeGraphicalLasso._fit", "regain/covariance/kernel_latent_time_graphical_lasso_.py")])
prop("C11", "Matrix-decomposition solvers perform exact updates of their problems",
 "For every observed matrix or matrix sequence, parameters and adaptation history, each iteration of the sparse-plus-low-rank decomposition solvers is the exact alternating-direction update of their problem. Static: half the squared reconstruction error of the observed matrix by sparse minus low-rank part, plus off-diagonal l1 on the sparse part and nuclear norm on the PSD low-rank part. Time-varying: squared reconstruction error at every time plus the same penalties plus temporal penalties on both parts.",
 [INP, CFG, HIS], "2x2 matrices, 1..3 time points, all parameters", SOLV,
 ["regain/covariance/infimal_convolution_.py", "regain/covariance/latent_time_matrix_decomposition.py"],
 [("infimal_convolution", "regain/covariance/infimal_convolution_.py"), ("latent_time_matrix_decomposition", "regain/covariance/latent_time_matrix_decomposition.py")])
prop("C12", "Solvers stop, warn and report exactly according to their residuals",
 "Every ADMM precision solver (static, latent, time-varying, kernel, decomposition) stops before the iteration limit only when primal and dual residuals are both within absolute-plus-relative tolerance (or a requested target objective is reached), and issues a non-convergence warning exactly when the limit is exhausted without that. The reported number of iterations is the number actually run, and the history holds one record per iteration (after a starting record for the time-varying and kernel solvers) with the true residuals, tolerances and objective value.",
 [INP, CFG, HIS], "all data, tolerances, iteration limits 1..3 and an arbitrary later iteration", "tests never look at the history, at the iteration count or at a non-converging run",
 ["regain/covariance", "regain/update_rules.py", "regain/utils.py"],
 [("stopping test and for/else warning in each solver", "regain/covariance/*.py"), ("Convergence", "regain/utils.py")])
prop("C13", "Step-size adaptation balances residuals and preserves the dual variable",
 "The step parameter is multiplied, divided or kept exactly according to the documented residual-balancing rule for every pair of residuals and options, always staying positive. Whenever it changes, the unscaled dual variables are preserved, so results of a solver never depend on how often it was rescaled beyond the sequence of step values.",
 [INP, CFG, HIS], "all residuals, factors and solver histories", "tests check three numeric residual pairs and never a solver run in which the parameter changes",
 ["regain/update_rules.py", "regain/covariance"],
 [("update_rho", "regain/update_rules.py"), ("U *= rho/rho_new", "regain/covariance/*.py"), ("update_gamma", "regain/update_rules.py")])
prop("C14", "Fitting groups samples by label and passes on every hyper-parameter",
 "For any order and any distinct values of the time labels and any class sizes, the time-varying estimators compute location, covariance and sample count of each class from exactly the samples carrying that label, classes sorted, centred or not as requested. Every documented hyper-parameter set on an estimator (penalties, steps, tolerances, starting matrix, temporal penalty names, kernels given as array or as kernel class with a parameter) reaches the solver unchanged, a kernel of the wrong size is rejected, and the solver's results are what the fitted attributes hold.",
 [INP, CFG], "all label sequences within the bound, all real data, all hyper-parameter values", "tests use one balanced, sorted label vector and default parameters",
 ["regain/covariance"],
 [("fit/_fit of all estimators", "regain/covariance/*.py")])
prop("C15", "Scores and error norms equal their documented formulas",
 "An estimator's score on any labelled data set equals the sum over classes of the class size times the Gaussian log-likelihood of the class data (centred with the fitted location) under the fitted observed precision. Error norms equal the documented Frobenius or spectral, scaled/unscaled, squared/unsquared formula averaged over time.",
 [INP, CFG], "all data sets, label orders, fitted matrices", "tests assert shapes only",
 ["regain/covariance", "regain/utils.py"],
 [("score / error_norm / get_observed_precision", "regain/covariance/*.py"), ("error_norm, error_norm_time", "regain/utils.py")])
prop("C16", "Missing-data imputation never alters observed entries",
 "For every pattern of missing entries, the missing-data graphical lasso keeps observed values exactly and replaces each missing value by its conditional expectation given the observed values of that row under the current mean and precision (all imputed values divided by one common factor so that none exceeds 1 in magnitude). The next mean is the mean of the completed data and the next covariance their second moment plus the conditional covariances of the missing entries, scaled by its largest entry; every M step gets that covariance and the parameters given; it stops and warns as its log-likelihood changes say.",
 [INP], "all data and all missingness patterns for up to 3 variables", "no test covers imputation values",
 ["regain/covariance/missing_graphical_lasso_.py"],
 [("compute_cs, compute_mean, compute_empirical_cov, _compute_empirical", "regain/covariance/missing_graphical_lasso_.py")])
prop("C17", "Forward-backward solver uses true gradients and valid steps",
 "The gradient used by the forward-backward time-varying solver is the derivative of its smooth objective for every input, the step searches return the first trial that meets their documented test (sufficient decrease or positive definiteness), and each new iterate is the relaxed proximal-gradient point of the documented objective with the diagonal left unpenalised, whatever the temporal norm (total variation or squared differences). It stops and reports as documented.",
 [INP, CFG, HIS], "all data and iterates, 1..3 time points, every option of the step search", "no test covers this solver",
 ["regain/forward_backward"],
 [("grad_loss, choose_gamma, choose_lamda", "regain/forward_backward/time_graphical_lasso_.py")])
prop("C18", "Neighbourhood GLMs use the right likelihood, gradient and symmetrisation",
 "For every data matrix and parameter vector, the gradient used by the Gaussian, Ising and Poisson neighbourhood estimators is the derivative of the corresponding average negative conditional log-likelihood over all samples, and every iterate is the proximal-gradient step with off-diagonal l1 shrinkage. The adjacency matrix is rebuilt from the neighbourhoods with every coefficient on the right edge, and union/intersection symmetrisation yields a symmetric matrix with the documented value for each edge.",
 [INP, CFG], "all data, coefficients and symmetrisation modes within bounds", "tests check shapes on random data",
 ["regain/generalized_linear_model"],
 [("_gradient_*, build_adjacency_matrix, fit_each_variable", "regain/generalized_linear_model/*.py")])
prop("C19", "Time-varying Ising and Poisson solvers perform their documented updates",
 "For every data set, kernel and penalty, each iteration of the time-varying Ising and Poisson solvers gives the per-time solver the right consensus term (every pair of times once, at every lag), then applies the proximal map of the kernel-weighted temporal penalty to each pair and updates the duals. Results are symmetric (Ising: null diagonal; Poisson: unit diagonal); residuals, objective, iteration count, warning and history are those of the run; the estimators group samples by label and pass on their parameters and kernel.",
 [INP, CFG, HIS], "2..3 time points and variables, all data and parameters", "tests check shapes on random data",
 ["regain/generalized_linear_model/glm_time_ising.py", "regain/generalized_linear_model/glm_time_poisson.py"],
 [("_fit_time_ising_model / _fit_time_poisson_model", "regain/generalized_linear_model")])
prop("C20", "Lasso and group-lasso solvers return optimal points of their objectives",
 "For every design, response, penalty and group structure, each iteration of the linear-model solvers (lasso, group lasso, overlapping group lasso) is the exact alternating-direction update of half squared error plus the l1 (or group l2) penalty, with the documented stopping tests and history. Any partition of the features is accepted by the group lasso and anything else is rejected. The proximal-gradient variant takes exact accelerated steps with exact screening of null groups, and the estimator solves one centred problem per target with the parameters it was given and predicts with the resulting coefficients and intercept.",
 [INP, CFG, HIS], "designs up to 3x2, all real data/penalties", "only one overlap example is tested",
 ["regain/linear_model"],
 [("lasso, group_lasso, group_lasso_overlap", "regain/linear_model")])
prop("C21", "Structure scores are exact confusion-matrix statistics",
 "For every pair of true and estimated matrices and any threshold, the structure score counts true/false positives and negatives over the compared entries (with or without diagonal) exactly, and every derived ratio (precision, recall, accuracy, F1, MCC, balanced accuracy, likelihood ratios ...) equals its textbook definition whenever that is defined, with no non-finite value or exception on degenerate inputs.",
 [INP, CFG], "all real matrices up to 3x3, thresholds, options", "tests use one or two examples; degenerate denominators are not exercised",
 ["regain/utils.py"],
 [("structure_error, mean_structure_error", "regain/utils.py")])
prop("C22", "Matrix helpers satisfy their algebraic contracts",
 "For all inputs, expanding an upper triangle gives the symmetric matrix with that triangle, normalisation (in place) gives unit diagonal scaling by square roots of the diagonal, the positive-definiteness test agrees with the leading minors, repair (in place) leaves positive definite matrices alone and makes others diagonally dominant, thresholding and top-n selection keep exactly the qualifying entries, flattening/composition preserve order, and stacking per-time data keeps each sample with its label.",
 [INP], "all real matrices up to 3x3 and list structures within bounds", "tests check one example each, several helpers none",
 ["regain/utils.py", "regain/norm.py", "regain/math.py"],
 [("upper_to_full, normalize_matrix, positive_definite, ensure_posdef, threshold, retain_top_n, convert_data_to_2d, flatten, compose", "regain/utils.py")])
prop("C23", "Model-selection scores equal the documented information criteria",
 "For every covariance, precision and sample count, log-likelihood, BIC, EBIC and the modified EBIC (static and time-varying) equal their formulas with degrees of freedom counted as the number of nonzero entries minus the number of variables (over all times), so that among equally likely models the sparser one never scores worse.",
 [INP], "all matrices up to 3x3, 1..3 times", "tests use identity or zero matrices",
 ["regain/scores.py"],
 [("log_likelihood, BIC, EBIC, EBIC_m and *_t", "regain/scores.py")])
prop("C24", "Clustering of precision matrices assigns to the nearest representative",
 "The distance between two precision matrices used for clustering is half the number of entries in which their supports differ; it is symmetric and zero on identical supports. A cluster representative holds exactly the edges common to all members of its cluster, every graph is assigned to a representative at minimal distance, clusters are recomputed from exactly their members, the similarity kernel returned is that of the final assignment, and a warning is issued iff the iteration limit is reached without a stable assignment.",
 [INP, CFG], "2..4 matrices of size 2x2, all values", "no test covers clustering",
 ["regain/clustering.py"],
 [("compute_distances, get_representative, graph_k_means", "regain/clustering.py")])
prop("C25", "Stability-based selection measures edge instability as documented",
 "For every list of estimated graphs, the instability is the average over edges of 2*p*(1-p) with p the edge frequency over subsamples, hence within [0, 1/2], zero iff all graphs agree; the monotonised instability of a parameter never decreases along the path and includes that parameter's own value; the graphlet variants stay within their bounds; the selected parameter's monotonised instability does not exceed the threshold whenever one qualifies.",
 [INP, CFG], "all graph collections within bounds", "no test covers stability selection",
 ["regain/model_selection/stability_optimization.py"],
 [("global_instability, upper_bound, graphlet_instability", "regain/model_selection/stability_optimization.py")])
prop("C26", "Synthetic Gaussian data sets are consistent with the truth they return",
 "For every generator mode (evolving l1, l2, norm-bounded, sine, sine-cosine, fixed sparsity, Gaussian-process, sklearn and user-supplied) and random draw, each generated time-varying model satisfies observed precision = sparse precision - latent part, covariances are inverses of the returned observed precisions, matrices are symmetric, samples are drawn from the covariance of their own time label, and labels and shapes match the requested numbers of samples, times and variables. Evolution keeps its promise: at most one edge changes per l1 step, changes are of the requested size for l2, no new edge appears with fixed sparsity.",
 [INP, CFG], "all draws of the random generator (symbolic), small sizes", "tests check shapes for one seed",
 ["regain/datasets"],
 [("make_dataset, make_* generators", "regain/datasets/gaussian.py"), ("kernels", "regain/datasets/kernels.py")])
prop("C27", "Ising and Poisson generators sample from the model they return",
 "For every graph and random draw, the Ising samplers (Gibbs sweeps, coupling from the past, direct sampling) set each spin with the conditional probability of the stated model, energies equal the stated Hamiltonian with every pair counted once, and Poisson samplers draw each count with the rate of the stated local model. Time-varying and multi-class graphs evolve by the requested number of edge changes, stay symmetric with zero diagonal, and samples of a time come from the graph of that time.",
 [INP, CFG], "all graphs up to 3 nodes, all draws", "tests check shapes only",
 ["regain/datasets/ising.py", "regain/datasets/poisson.py"],
 [("ising/poisson samplers", "regain/datasets")])
prop("C28", "Bayesian precision updates and G-Wishart inference are exact",
 "For every data set and prior, Wishart, inverse-Wishart and normal-inverse-Wishart densities, means, modes, marginals and predictive densities equal their closed forms, posterior parameters after batch data equal the sequential one-sample-at-a-time updates, and log-normal helpers invert each other. In G-Wishart inference the Laplace-approximation objective, gradient and Hessian are those of the stated density, the covariance-selection gradient is the derivative of its objective, every graph is enumerated once with its Markov blankets, and the best-scoring graphs are returned with their scores.",
 [INP, HIS], "all data (up to 3 samples, 2 variables) and priors", "no test covers bayesian modules",
 ["regain/bayesian"],
 [("wishart_distribution_, stats", "regain/bayesian"), ("bayesian_graphical_lasso, covsel, Laplace approximation", "regain/bayesian/gwishart_inference.py")])
prop("C29", "Wishart-process sampling keeps state and likelihood consistent",
 "For every random draw, elliptical slice sampling returns a point on its ellipse whose log-likelihood exceeds the drawn level (up to the documented scaling of the log-uniform term) together with exactly that log-likelihood, Metropolis-Hastings steps accept exactly by their ratio, covariance construction from process factors yields the stated symmetric PSD matrices, kernels equal their formulas, chain states are stored independently of later mutations, and predictions and scores use the chain as documented.",
 [INP, HIS], "all draws and likelihoods within unrolling bounds", "no test covers bayesian modules",
 ["regain/bayesian/sampling.py", "regain/bayesian/wishart_process_.py"],
 [("elliptical_slice, GWP_construct, fit", "regain/bayesian")])
prop("C30", "Solvers and estimators never modify the caller's arrays",
 "No solver, estimator, score, norm, clustering helper or proximal operator changes the arrays or option dictionaries it is given (data, labels, covariances, initial precision, kernels, sample counts, step options), so repeating a call on the same arrays gives the same result; and a fit depends only on its data and parameters, not on what the same estimator was fitted on before. Excluded: helpers documented to work in place and the Ising samplers.",
 [INP, HIS], "all entry points above, all values", "no test compares inputs before and after, and in-place updates only show with particular options",
 ["regain/covariance", "regain/prox.py", "regain/utils.py"],
 [("copies at solver entry", "regain/covariance/*.py")])
prop("C31", "Plots and interactive figures depict the given matrices",
 "Plotting helpers draw exactly the given matrices, graphs and result tables.",
 [INP], "all matrices", "no plotting tests",
 ["regain/plotting"], [("plotting helpers", "regain/plotting")])
prop("C32", "Sampled estimates are statistically consistent",
 "Iterative solvers reach their tolerance within the iteration limit on well-posed data, and random generators and samplers follow their target distributions.",
 [INP, HIS], "unbounded iteration counts, probability distributions", "convergence rates and distributions cannot be settled by samples",
 ["regain/covariance", "regain/datasets", "regain/bayesian"], [("solver loops, numpy/scipy generators", "regain")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
