"""Writes /verif/properties.jsonl (kept as a generator so the wording lives in one place)."""
import json, os
P = []
S = 'src/pylogit/'
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Choice probabilities are a clamped, normalised distribution per situation",
  "For every model type and all parameter values, the probability of a row is its own exponentiated (transformed, overflow-clamped) utility divided by the sum of the same quantities over exactly the rows of its own choice situation (for nested logit: the within-nest share times the nest share built from the same exponentials and the 0-1 scaled nest coefficients). Utilities are clamped on both sides before exponentiation and a probability that underflows to zero is replaced by a tiny positive number, so no zero, NaN or infinity is produced from large finite utilities. The per-situation probabilities of the chosen rows come from the same exponentials and denominators as the per-row ones.",
  ["inputs", "configurations"], "all designs, parameters (1-D or several columns), choice sets of any size, all seven model types",
  "Tests compare against hand-computed numbers on one three-alternative data set with a few coefficient values; clamps, multi-column parameters, 3-D designs and uneven choice sets are only sampled.",
  ["choice_calcs.py", "nested_choice_calcs.py"],
  [("softmax kernel with clamping", "choice_calcs.py:calc_probabilities"), ("nested kernel", "nested_choice_calcs.py:calc_nested_probs"), ("0-1 nest coefficients", "nested_choice_calcs.py:naturalize_nest_coefs")],
  ["model.predict", "model.long_fitted_probs"])

p("C02", "Prediction uses the given parameters and returns what the flags ask for",
  "Prediction on new data uses the supplied parameter set (in its documented index / intercept / shape / nest order) or, when none is supplied, the fitted one, with the same design construction, mappings and utility transformation as estimation. For every model type it returns the long probabilities, the chosen-row probabilities, or the pair (chosen, long), exactly according to whether long probabilities are requested and a choice column is given. Asking for neither is rejected.",
  ["inputs", "configurations"], "all model types x {fitted, supplied parameters} x {long, chosen, both} x data sets",
  "Tests call predict with a handful of argument combinations on one data set; several model-type/flag combinations are never executed.",
  ["base_multinomial_cm_v2.py", "mixed_logit.py"],
  [("predict", "base_multinomial_cm_v2.py:MNDC_Model.predict"), ("panel_predict", "mixed_logit.py:MixedLogit.panel_predict")],
  ["model.predict(...)"])

p("C03", "The objective is the weighted log-likelihood minus one shared ridge penalty",
  "For every model type the objective equals the sum over chosen rows (choice sequences for mixed logit) of weight times log probability, and nothing else; omitting weights is the same as weights of one. If a ridge value is given, ridge times the sum of squares of all estimated parameters (nest parameters measured from their neutral value of one) is subtracted, otherwise nothing is. The optimiser minimises exactly the negative of this objective, with the negative of its gradient.",
  ["inputs", "configurations"], "all parameters, weights, ridge values and model types, with or without shapes and outside intercepts",
  "Tests evaluate the objective on one data set with a few weights and one ridge; combinations of optional parameters with weights and ridge are sampled.",
  ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "estimation.py"],
  [("log-likelihood", "choice_calcs.py:calc_log_likelihood"), ("nested log-likelihood", "nested_choice_calcs.py:calc_nested_log_likelihood"), ("mixed log-likelihood", "mixed_logit_calcs.py:calc_mixed_log_likelihood"), ("sign flip for the optimiser", "estimation.py:EstimationObj")],
  ["estimator.convenience_calc_log_likelihood"])

p("C04", "The analytic gradient is the derivative of the objective in every configuration",
  "For every model type and every combination of optional parameter blocks, weights and ridge, the gradient handed to the optimiser is the weighted score (chain rule through the utility transformation, the simulated choice sequences, or the nest structure), with one entry per parameter in parameter-vector order. Weights enter each term exactly once. A ridge value subtracts twice ridge times the parameter from the matching entry.",
  ["inputs", "configurations"], "all parameters x {shapes, intercepts present/absent} x {weights} x {ridge} x model types",
  "Tests compare with finite differences or hand values at a few points; the full combination of blocks, weights and ridge is sampled.",
  ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py"],
  [("gradient", "choice_calcs.py:calc_gradient"), ("nested gradient", "nested_choice_calcs.py:calc_nested_gradient"), ("mixed gradient", "mixed_logit_calcs.py:calc_mixed_logit_gradient")],
  ["estimator.convenience_calc_gradient"])

p("C05", "Hessian, information and sandwich matrices have the documented block structure",
  "For every configuration the Hessian is the symmetric matrix whose (i, j) block is minus the weighted probability-covariance product of the derivative blocks i and j, in parameter-vector order, with twice the ridge subtracted from the diagonal only. The outer-product information matrices sum weighted per-situation (per-mixing-unit) score products over the same blocks. The robust covariance is inverse-Hessian times information times inverse-Hessian.",
  ["inputs", "configurations"], "all parameters, weights, ridge, dense or sparse derivative blocks, optional blocks",
  "Tests check a few numeric matrices; off-diagonal blocks under weights with both optional blocks, or sparse/dense mixtures, are sampled.",
  ["choice_calcs.py", "mixed_logit_calcs.py", "nested_choice_calcs.py"],
  [("hessian", "choice_calcs.py:calc_hessian"), ("covariance product", "choice_calcs.py:quadratic_prod_wrt_dp_ds"), ("information", "choice_calcs.py:calc_fisher_info_matrix"), ("BHHH", "mixed_logit_calcs.py:calc_bhhh_hessian_approximation_mixed_logit"), ("nested BHHH", "nested_choice_calcs.py:calc_bhhh_hessian_approximation"), ("sandwich", "choice_calcs.py:calc_asymptotic_covariance")],
  ["model.hessian", "model.cov", "model.robust_cov"])

p("C06", "Each asymmetric model's utility transform and its derivatives are its definition",
  "The clog-log, scobit, uneven and asymmetric logit utility transformations compute their published closed forms (with outside intercepts added to every alternative except the reference one), and the derivative routines used in estimation are the derivatives of those same forms with respect to the index, the shape parameters as estimated, and the intercepts. Values that overflow or underflow are replaced by the stated finite limits, never by NaN or infinity of the wrong sign.",
  ["inputs", "configurations"], "all systematic utilities, shape and intercept values, one or many parameter columns, any reference alternative",
  "Tests evaluate the transforms at a few utilities and extreme values for fixed shape vectors; the limits and reference handling hold for all values.",
  ["asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "conditional_logit.py"],
  [("transforms", "asym_logit.py:_asym_utility_transform"), ("transforms", "clog_log.py:_cloglog_utility_transform"), ("transforms", "scobit.py:_scobit_utility_transform"), ("transforms", "uneven_logit.py:_uneven_utility_transform"), ("derivatives", "scobit.py:_scobit_transform_deriv_shape")],
  ["model.utility_transform"])

p("C07", "One parameter-vector layout: nests, shapes, intercepts, index coefficients",
  "Everywhere a flat parameter vector is split, assembled, labelled, counted or reordered (model fitting, initial values, length checks, result storage, bootstrap replicates, prediction parameter lists), the same order and block sizes are used: nest parameters, then shape parameters, then outside intercepts, then index coefficients. An initial vector of any other length is rejected before optimisation.",
  ["inputs", "configurations"], "all model types, numbers of alternatives, nests and coefficients, with or without optional blocks",
  "Tests use one fixed number of alternatives and coefficients per model, where many wrong slices coincide with the right ones.",
  ["asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_logit.py", "mixed_logit.py", "conditional_logit.py", "bootstrap.py", "bootstrap_mle.py", "base_multinomial_cm_v2.py"],
  [("splitting", "asym_logit.py:split_param_vec"), ("length checks", "asym_logit.py:AsymEstimator.check_length_of_initial_values"), ("bootstrap splitting", "bootstrap.py:get_param_list_for_prediction"), ("labels", "bootstrap.py:get_param_names"), ("initial values", "bootstrap_mle.py:extract_default_init_vals")],
  ["model.params", "Boot.bootstrap_replicates.columns"])

p("C08", "Design-matrix columns and coefficient names correspond one to one",
  "For every specification, the design matrix has one column per generic variable, one per alternative for alternative-specific variables (alternatives in sorted order) and one per listed alternative or group of alternatives, in specification order, and each column equals the variable on exactly the rows of the alternatives it belongs to and zero elsewhere. The k-th coefficient name, default or user supplied, always refers to the k-th column, whatever the order of the user's name mapping.",
  ["inputs", "configurations"], "all long-format data sets, specifications, groupings and name mappings",
  "Tests use a few specifications on one small data set, with names given in specification order.",
  ["choice_tools.py"],
  [("design construction", "choice_tools.py:create_design_matrix"), ("name checks", "choice_tools.py:check_keys_and_values_of_name_dictionary")],
  ["model.design", "model.ind_var_names"])

p("C09", "Row mappings are exact indicator matrices for any identifiers",
  "The mappings from rows to choice situations, alternatives, nests and mixing units are indicator matrices with a one exactly where the row carries that identifier: situations and mixing units in order of first appearance, alternatives in sorted order, nests in specification order. Rows whose identifier is not represented map to nothing, and the chosen-row mapping is the situation mapping restricted to rows marked as chosen.",
  ["inputs"], "all identifier vectors (unsorted, gapped, repeated), any choice sets and nest specifications, sparse or dense",
  "Tests use consecutive, sorted identifiers where position, identifier and sort order coincide.",
  ["choice_tools.py"],
  [("sparse indicator", "choice_tools.py:create_sparse_mapping"), ("order of appearance", "choice_tools.py:get_original_order_unique_ids"), ("all mappings", "choice_tools.py:create_long_form_mappings")],
  ["model.get_mappings_for_fit()"])

p("C10", "Wide/long conversions keep every value with its observation and alternative",
  "Converting between wide and long format never moves a value, a choice or an availability flag to a different observation or alternative, whatever the order of rows, identifiers, availability or variable mappings supplied by the user. Long output has one row per available alternative of each observation; wide output has one row per observation with the null value where an alternative is unavailable. Observations without exactly one chosen alternative, choices of unavailable alternatives and duplicate observation-alternative pairs are rejected.",
  ["inputs"], "all data sets: unsorted identifiers, interleaved rows, unordered mappings, partial availability",
  "Tests convert one small, sorted data set with mappings given in sorted order.",
  ["choice_tools.py"],
  [("wide to long", "choice_tools.py:convert_wide_to_long"), ("long to wide", "choice_tools.py:convert_long_to_wide")],
  ["convert_wide_to_long", "convert_long_to_wide"])

p("C11", "Library calls do not modify the caller's inputs or shared model state",
  "Building, fitting, predicting with, bootstrapping or converting never modifies objects supplied by the caller (data frames except for the documented added intercept column, specification, name and nest dictionaries, keyword dictionaries, parameter and weight arrays), nor the stored data, design and mapping matrices of a model. Scratch arrays that are overwritten on each evaluation are private copies.",
  ["inputs", "histories"], "all call sequences on the public functions and model methods",
  "Tests look at results of single calls; a leaked alias only shows after a particular sequence of calls.",
  ["choice_tools.py", "choice_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "bootstrap_sampler.py", "bootstrap_mle.py", "bootstrap_abc.py", "mixed_logit_calcs.py", "nested_logit.py"],
  [("copies of mappings used as output buffers", "scobit.py:create_calc_dh_d_shape"), ("deep-copied resampling frames", "bootstrap_sampler.py:create_deepcopied_groupby_dict"), ("copied fit keywords", "bootstrap_abc.py:calc_finite_diff_terms_for_abc")],
  ["caller's objects before and after a call"])

p("C12", "Seeds fully determine random draws; randomness is confined and never reseeded",
  "Random numbers are drawn only when generating simulation draws and bootstrap samples, and only from the generator that the user's seed initialises; when a seed is given it is applied before the first draw and every draw follows from it, and when none is given the generator is left unseeded. No result depends on the iteration order of unordered collections or on the clock.",
  ["inputs", "histories"], "all seeds, call sequences and data",
  "Tests run one seed once; reproducibility is about all seeds and histories.",
  ["mixed_logit_calcs.py", "bootstrap_sampler.py", "bootstrap.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
  [("normal draws", "mixed_logit_calcs.py:get_normal_draws"), ("bootstrap samples", "bootstrap_sampler.py:create_cross_sectional_bootstrap_samples")],
  ["two runs with one seed"])

p("C13", "Invalid inputs are rejected before any estimation or resampling starts",
  "Model construction, fitting, prediction and interval computation reject, with ValueError or TypeError (or a plain assertion where documented) and before computing anything from them: missing columns, non-numeric / infinite / NaN specification columns, malformed specifications, names, reference positions and nests, wrong-length or negative weights, non-scalar ridge, non-contiguous situations, malformed parameter lists, out-of-range confidence levels and resampled identifiers outside the data. Valid inputs are never rejected by these checks.",
  ["inputs", "configurations"], "all argument values on all public entry points",
  "Tests feed a few bad values to each validator; the accepted and rejected sets are infinite, and whether every entry point still calls its validators is not tested per model type.",
  ["base_multinomial_cm_v2.py", "choice_tools.py", "estimation.py", "bootstrap_utils.py", "bootstrap_sampler.py", "bootstrap_abc.py"],
  [("constructor checks", "base_multinomial_cm_v2.py:MNDC_Model.__init__"), ("estimation checks", "estimation.py:EstimationObj.__init__"), ("specification checks", "choice_tools.py:check_type_and_values_of_specification_dict"), ("confidence level", "bootstrap_utils.py:check_conf_percentage_validity")],
  ["exceptions raised by public calls"])

p("C14", "Each model type is dispatched, labelled and rebuilt as itself",
  "Every one of the seven model types maps to its own model class, estimator, parameter splitting and display name, consistently in creation, estimation, prediction and bootstrapping, and unknown types are rejected. Every constructor argument the user gives reaches the model unchanged, and a model rebuilt for a bootstrap or jackknife replicate carries the complete configuration of the original (specification, names, reference positions, shape and intercept names, nests, mixing settings).",
  ["configurations"], "all model types x constructor arguments",
  "Tests create each type with one argument set; cross-table agreement and complete forwarding is a property of all types and arguments.",
  ["pylogit.py", "display_names.py", "construct_estimator.py", "bootstrap_mle.py"],
  [("type table", "pylogit.py:model_type_to_class"), ("display names", "display_names.py:model_type_to_display_name"), ("estimator table", "construct_estimator.py:model_type_to_resources"), ("rebuild", "bootstrap_mle.py:get_model_creation_kwargs")],
  ["create_choice_model", "Boot"])

p("C15", "Fit options reach the computation for every model type; none is dropped",
  "For every model type, the optimisation method, tolerances, iteration limit, ridge, weights, constrained positions, number of draws, seed and point-estimate-only flag passed by the user to fitting (directly, or through bootstrap, jackknife, gradient-norm and interval calls that accept them) reach the estimator and optimiser unchanged, and the method and ridge used are recorded on the model. Penalised fits warn the user.",
  ["configurations", "inputs"], "all model types x options x entry points",
  "Tests fit each model with defaults; a silently swallowed keyword changes results without any failure.",
  ["conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_logit.py", "mixed_logit.py", "estimation.py", "bootstrap.py", "bootstrap_mle.py", "bootstrap_abc.py"],
  [("fitting", "conditional_logit.py:MNL.fit_mle"), ("optimiser call", "estimation.py:estimate"), ("bootstrap", "bootstrap.py:Boot.generate_bootstrap_replicates")],
  ["model.fit_mle", "Boot methods"])

p("C16", "Stored results and summaries are the ones computed, under the right names",
  "After estimation every reported quantity (log-likelihoods, probabilities, residuals, chi-squares, parameters by block, gradient, Hessian, covariance, standard errors, t-statistics, two-sided p-values, their robust versions, rho-squareds, AIC, BIC, degrees of freedom, confidence bounds, summary tables) is computed from the final parameter vector by its textbook formula and stored under its own name with parameter labels in parameter order.",
  ["inputs", "configurations"], "all estimation results, all model types, optional blocks present or absent",
  "Tests store one fabricated results dictionary; swapped or stale quantities in other configurations are not exercised.",
  ["base_multinomial_cm_v2.py", "estimation.py"],
  [("post-estimation", "estimation.py:calc_and_store_post_estimation_results"), ("storage", "base_multinomial_cm_v2.py:MNDC_Model.store_fit_results"), ("inference", "base_multinomial_cm_v2.py:MNDC_Model._store_generic_inference_results")],
  ["model attributes after fit_mle"])

p("C17", "Bootstrap and jackknife resample whole observations, stratified and re-labelled",
  "Each bootstrap replicate draws, with replacement and within each group of observations that chose the same alternative, exactly as many observations as the group contains; each drawn observation contributes all of its rows under a new unique identifier, even when drawn repeatedly. Each jackknife replicate leaves out exactly one observation, all of its rows and no others, and each replicate's estimates are stored in that replicate's own row. The log-likelihood or gradient norm reported for a replicate is that of its own parameter estimates on the original data.",
  ["inputs", "histories"], "all data sets, group sizes, numbers of samples",
  "Tests draw a few samples from one small data set.",
  ["bootstrap_sampler.py", "bootstrap.py", "bootstrap_mle.py"],
  [("stratified resampling", "bootstrap_sampler.py:create_cross_sectional_bootstrap_samples"), ("replicate frame", "bootstrap_sampler.py:create_bootstrap_dataframe"), ("jackknife", "bootstrap.py:Boot.generate_jackknife_replicates")],
  ["Boot.bootstrap_replicates", "Boot.jackknife_replicates"])

p("C18", "Confidence intervals follow their definitions with bounds the right way round",
  "Percentile, BCa and ABC intervals are computed from the requested confidence level by their published formulas for every parameter separately, with the lower bound (tail alpha/2) first and the upper bound (1 - alpha/2) second and column labels that match. Each stored interval table holds its own interval type for its own parameters.",
  ["inputs"], "all confidence levels, replicate arrays and parameters",
  "Tests use one or two confidence levels and small arrays, where several percent conventions and column orders coincide.",
  ["bootstrap_calcs.py", "bootstrap_abc.py", "bootstrap_utils.py", "bootstrap.py"],
  [("percentile / BCa", "bootstrap_calcs.py:calc_bca_interval"), ("ABC", "bootstrap_abc.py:calc_abc_interval"), ("tables", "bootstrap.py:Boot.calc_conf_intervals")],
  ["Boot.percentile_interval", "Boot.bca_interval", "Boot.abc_interval"])

p("C19", "Every model object can be saved and reloaded",
  "A model object of any type, before or after estimation, can be saved with its own save method to a path given by a string (extension added when missing) and reloaded: nothing it stores on itself is unpicklable (such as anonymous or locally defined functions, generators or open files), and the saved object is the model itself.",
  ["configurations", "histories"], "all model types, before/after fitting, all constructor and fit options",
  "Tests save one simple model; whether each of the seven classes stores only serialisable attributes on every path is not exercised.",
  ["base_multinomial_cm_v2.py", "nested_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "conditional_logit.py", "mixed_logit.py"],
  [("to_pickle", "base_multinomial_cm_v2.py:MNDC_Model.to_pickle"), ("attribute stores", "nested_logit.py:NestedLogit.__init__")],
  ["model.to_pickle"])

p("C20", "Mixed-logit simulation pairs each mixing unit with its own draws throughout",
  "In estimation and prediction every row of one mixing unit uses that unit's draws, each random coefficient uses its own independent standard-normal draws, and the standard-deviation columns follow the original columns in mixing-variable order. Choice-sequence probabilities are products over all chosen rows of the unit, per draw, averaged over draws. Panel prediction weights each known unit's draws by that unit's own past sequence probabilities under the same draws, and gives unknown units equal weights.",
  ["inputs", "configurations"], "all panels, orders of mixing units in old and new data, numbers of draws and random coefficients",
  "Tests use one small panel where old and new units appear in the same order.",
  ["mixed_logit_calcs.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
  [("expanded design", "mixed_logit_calcs.py:create_expanded_design_for_mixing"), ("sequence probabilities", "mixed_logit_calcs.py:calc_choice_sequence_probs"), ("panel prediction", "mixed_logit.py:MixedLogit.panel_predict")],
  ["panel_predict", "fit_mle"])

p("C21", "Constrained parameters and degenerate nests stay fixed and are reported so",
  "The optimiser sees a zero gradient for every constrained position, so constrained parameters keep their initial values; nested logit additionally constrains the coefficient of every single-alternative nest, merged with the user's constraints. For nested and mixed logit the rows and columns of constrained parameters are removed from the curvature matrix, and the reported standard errors, t-statistics and p-values of constrained parameters (and only those) are missing values.",
  ["inputs", "configurations"], "all sets of constrained positions, nest specifications and model types",
  "Tests constrain one position of one model; positions, merging and reporting hold for all sets.",
  ["estimation.py", "nested_logit.py", "mixed_logit.py", "base_multinomial_cm_v2.py"],
  [("gradient masking", "estimation.py:EstimationObj.calc_neg_log_likelihood_and_neg_gradient"), ("degenerate nests", "nested_logit.py:identify_degenerate_nests"), ("reporting", "base_multinomial_cm_v2.py:MNDC_Model._adjust_inferential_results_for_parameter_constraints")],
  ["model.params", "model.standard_errors"])

p("C22", "Point-estimate-only fits leave a model's stored results untouched",
  "Fitting with the point-estimate-only flag returns the optimiser's result and stores no estimates, standard errors, summaries or fitted probabilities on the model, for every model type; fitting without it stores all of them and returns nothing. Bootstrap, jackknife and interval computations only ever refit in point-estimate-only mode.",
  ["configurations", "histories"], "all model types and call sequences mixing full fits, point fits and resampling",
  "Tests check the flag for single calls; that resampling never overwrites reported results is about all histories.",
  ["conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py", "nested_logit.py", "mixed_logit.py", "estimation.py", "bootstrap_mle.py", "bootstrap_abc.py"],
  [("branch on the flag", "conditional_logit.py:MNL.fit_mle"), ("forced flag", "bootstrap_mle.py:retrieve_point_est")],
  ["model attributes around fit_mle(just_point=True)"])

p("C23", "The optimiser converges to the maximum-likelihood estimate",
  "On identified models the returned parameters are a (local) maximiser of the objective within the stated tolerances.",
  ["inputs"], "all data sets and starting values",
  "Only sampled data sets are estimated.",
  ["estimation.py"], [("scipy minimize", "estimation.py:estimate")])

p("C24", "Bootstrap intervals have their nominal coverage",
  "Over repeated samples the reported intervals contain the true parameter with approximately the nominal probability.",
  ["inputs"], "all data-generating processes",
  "Coverage is a statistical limit statement.",
  ["bootstrap_calcs.py", "bootstrap_abc.py"], [("interval formulas", "bootstrap_calcs.py:calc_bca_interval")])

p("C25", "Floating-point error of probabilities and derivatives stays small",
  "For moderate inputs, computed probabilities, gradients and Hessians agree with exact arithmetic to near machine precision.",
  ["inputs"], "all real inputs",
  "Only sampled inputs are compared to a tolerance.",
  ["choice_calcs.py", "scobit.py", "asym_logit.py"], [("kernels", "choice_calcs.py:calc_probabilities")])

p("C26", "Estimation time and memory scale with the data",
  "Time and memory grow roughly linearly in rows for fixed parameters, so large data sets can be estimated.",
  ["inputs"], "all data sizes",
  "Tests use tiny data sets.",
  ["choice_calcs.py", "choice_tools.py"], [("sparse mappings", "choice_tools.py:create_sparse_mapping")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
