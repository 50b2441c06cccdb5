SPECS = {}
def P(pid, bounds, groups, outside="", assumptions=(), level="other"):
    SPECS[pid] = dict(bounds=bounds, groups=groups, outside=outside, assumptions=list(assumptions), level=level)
MAT = ["matrix/matrix.cpp", "matrix/matrix_la.cpp", "matrix/matrix_sym.cpp", "matrix/decompositions.cpp", "matrix/vmatrix.cpp", "helpers.cpp", "array.cpp"]
ARR = ["array.cpp", "helpers.cpp"]
P("A01", "arrays of length <= 6, every missing pattern, all real values; partitions of <= 7 items, size 1..4", [dict(harness="array.cpp", sources=ARR, entries={k: None for k in ["range", "range_empty", "indexrange", "interpolate", "partition"]})])
P("A02", "arrays of length <= 4, every missing pattern, all real values and positive weights", [dict(harness="array.cpp", sources=ARR, entries={k: None for k in ["mean_var", "mean_var_nan", "mean_var_w", "mean_var_w_nan", "higher_moments", "higher_moments_nan", "higher_moments_w", "higher_moments_w_nan", "minmax", "descriptive_dispatch"]})])
P("A03", "<= 5 values split at every point", [dict(harness="array.cpp", sources=ARR, entries={k: None for k in ["running1", "running2", "running3", "running4", "running_direct", "running_stats", "running_nan"]})])
FRQ = ["frequency/f_base.cpp", "frequency/f_cross_section.cpp", "frequency/f_day_based.cpp", "frequency/f_list.cpp", "frequency/f_week_based.cpp", "frequency/f_year_based.cpp", "helpers.cpp"]
def E(s): return {k: None for k in s.split()}
P("F01", "years 0-9999 and |steps| <= 100000 for position arithmetic (|steps| <= 3000 for differences and comparison), partitions 1..400 (multi-year 1-3), days 2000-01-01 .. +3000 days, |steps| <= 3000 periods, all 49 week ranges with |steps| <= 9, times of day 1..86400, lists of 3 items with steps -9..9, all 19x19 pairs of classes", [dict(harness="freq.cpp", sources=FRQ, entries=E("year_next year_algebra year_compose year_anypc year_ctor year_factory week_next week_algebra week_compose diw_algebra diw_snap diw_walk day_next day_algebra day_diw day_ctor cs_algebra list_algebra list_date mismatch"))])
P("F02", "years 0-9999, partitions up to 400, days 2000-01-01 .. +100000 days, multipliers up to 300, arbitrary text and class strings of <= 3 characters, positions -3..2000", [dict(harness="freq.cpp", sources=FRQ, entries=E("txt_year txt_week txt_day txt_cs txt_list txt_invalid txt_robust txt_classes"))])
P("F03", "all 49 ranges and 7 days (complete)", [dict(harness="freq.cpp", sources=FRQ, entries=E("dow_range dow_distance dow_text"))])
VAR = FRQ + ["array.cpp", "variable/variable.cpp", "variable/variables.cpp"]
P("V01", "<= 3 observations with every missing pattern (text), <= 4 (trim), <= 2 fields, 10 frequency kinds with symbolic positions; doubles in text are uninterpreted tokens (printing and reading a double is trusted to be inverse)", [dict(harness="var.cpp", sources=VAR, entries=E("var_text var_text_list var_equal var_trim var_parse_bad"))])
P("V02", "<= 16 symbolic observations (weekly), <= 9 (yearly partitions, six 10-day windows of start dates covering year, leap-day and half-year ends), <= 7 (multi-day), <= 3 list dates, all week ranges of length 1..6", [dict(harness="var.cpp", sources=VAR, entries=E("conv_multiday conv_weekly conv_m1 conv_m2 conv_m3 conv_m4 conv_m6 conv_m12 conv_m24 conv_xyear conv_daily_list conv_daily_week conv_daily_week_mid conv_reject"))])
P("V03", "2-3 variables of <= 2 observations starting 0..3 periods apart, five frequency kinds; single columns of <= 4 observations with every missing pattern", [dict(harness="var.cpp", sources=VAR, entries=E("bind_quarterly2 bind_daily2 bind_diw2 bind_cs3 bind_hourly2 bind_range bind_mixed"))])
P("M01", "matrices of up to 3 x 3 (sub-matrices of up to 3 x 3 in 3 x 3), all element values, all row/column indexes in [-2, 5], storage of every shape up to the bound", [dict(harness="matrix.cpp", sources=MAT, entries=E("mat_index mat_index1 mat_shape mat_iter mat_setsub mat_getsub mat_getsub_idx mat_getsub_idx2 mat_subvector mat_rows mat_cols mat_copy mat_fill mat_isdiag mat_apply mat_triangular vmat"))])
P("M02", "operand shapes up to 3 x 3 (2 x 2 factors for Kronecker products), all element values, coefficients alpha and beta symbolic, every missing pattern for the products that skip missing values", [dict(harness="matrix.cpp", sources=MAT, entries=E("la_elementwise la_elem_size la_power la_dot la_dot_size la_dotvec la_gram la_gram_nan la_sym la_diag la_kron la_transpose la_trace_norm la_norms"))], assumptions=["BLAS routines are replaced by reference implementations over the reals (engine/rt/blas.cpp)"])
P("M03", "square systems up to 3 x 3, all element values (positive definiteness assumed through leading minors where required); QR: memory safety of shapes up to 3 x 3", [dict(harness="matrix.cpp", sources=MAT, entries=E("inv1 inv2 inv3 inv2x2 det1 det2 det3 inv_shape chol1 chol2 chol3 det_pd nonpd1 nonpd2 nonpd3 solve_tri solve_pos qr_memory"))], assumptions=["BLAS/LAPACK routines are replaced by reference implementations over the reals (engine/rt/blas.cpp); dgeqrf by its workspace contract"])
P("M04", "symmetric storage of order up to 3, all element values, indexes in [-2, 4]", [dict(harness="matrix.cpp", sources=MAT, entries=E("sym_diag sym_nodiag sym_anyall"))])
P("M05", "matrices of up to 3 x 3 with every missing pattern (up to 2 x 4 for rows), all element values, both sample and population forms", [dict(harness="matstat.cpp", sources=MAT, entries=E("ms_range_col ms_range_row ms_interp_row ms_interp_col ms_nanrow ms_remove_vec ms_remove_cols ms_remove_colsin ms_meanvar ms_cov ms_cor ms_covbad ms_sums ms_colvar ms_standard ms_extreme ms_extreme_line ms_int ms_find ms_equals ms_equals_size ms_equalsvalue ms_symmetric"))])
P("M06", "up to 4 elements per column / list, all values, all index lists with positions in [-1, 3]", [dict(harness="matstat.cpp", sources=MAT, entries=E("so_sort so_indices so_byvec so_size"))])

DAT = MAT + ["matrix/dataset.cpp"]
P("D01", "data of up to 3 x 3 with every missing pattern, all element values, every list of up to two columns", [dict(harness="data.cpp", sources=DAT + ["ldt_statistics/data_split.cpp"], entries=E("ds_select ds_all ds_bad"))])
P("D02", "up to 2 variables of up to 3 observations with every missing pattern, by row and by column, every selection of up to two variables, a second data set given to the same object", [dict(harness="data.cpp", sources=DAT + ["ldt_statistics/data_split.cpp"], entries=E("ts_row ts_col ts_full ts_again"))])
P("D03", "data of up to 3 x 2 with every missing pattern, all element values, all options, given means and variances symbolic", [dict(harness="data.cpp", sources=DAT + ["ldt_statistics/data_split.cpp"], entries=E("std_plain std_nan std_size"))])
P("D04", "up to 4 observations, up to 3 groups in every arrangement, every output of the random generator, 7 training ratios and fixed sizes -1..5", [dict(harness="data.cpp", sources=DAT + ["ldt_statistics/data_split.cpp"], entries=E("split_plain split_disc2 split_disc3 split_disc4"))])

STA = DAT + ["ldt_statistics/statistics/statistics.cpp", "ldt_statistics/statistics/descriptive.cpp", "ldt_statistics/correlation.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_statistics/scoring/roc.cpp", "ldt_statistics/scoring/frequency_cost.cpp", "ldt_math/auc.cpp"]
P("S01", "up to 4-5 values per series, 3 x 2 (3 x 3 for covariances) per matrix with every missing pattern, all values, every filter length up to 4", [dict(harness="stat.cpp", sources=STA, entries=E("de_minmax de_meanvar de_moments de_filter_ar de_filter_ma de_seasonal de_trend de_quantile rank cor_cov cor_cor cor_cov_nan cor_cor_nan sp_cor sp_cov sp_cor_nan sp_cov_nan"))])
P("S02", "all rules and metrics, all values of score and minimum, names of up to 4 arbitrary characters, all type numbers -3..130", [dict(harness="stat.cpp", sources=STA, entries=E("sc_out sc_in sc_text sc_bad"))])
P("S03", "up to 4 observations with every labelling, all scores (with every pattern of ties), weights, costs and cost matrices, all bounds of a partial AUC", [dict(harness="stat.cpp", sources=STA, entries=E("roc_plain roc_pess roc_weight roc_cost roc_wcost roc_partial roc_bad auc_points"))])
P("S04", "up to 2 observations with every labelling (missing too), up to 2 tables of up to 3 rows, all thresholds, scores, costs and weights", [dict(harness="stat.cpp", sources=STA, entries=E("fc_plain fc_weight fc_check"))])
CLU = MAT + ["matrix/dataset.cpp", "ldt_statistics/clustering/distance.cpp", "ldt_statistics/clustering/hcluster.cpp", "ldt_statistics/clustering/group_data.cpp", "ldt_statistics/correlation.cpp", "ldt_statistics/statistics/statistics.cpp"]
P("L01", "up to 3 observations, 2 regressors and 2 equations (2 observations for GLS), all values", [dict(harness="stat.cpp", sources=STA, entries=E("ols1 ols2 ols_size gls1 gls2 gls_size gls_sing"))])
P("C01", "data of up to 3 x 3 (3 x 2 with every missing pattern), all values, all five distances and both correlations", [dict(harness="cluster.cpp", sources=CLU, entries=E("di_euclid di_euclid_nan di_manhattan di_manhattan_nan di_max di_max_nan di_pearson di_pearson_nan di_spearman di_spearman_nan di_names"))])
P("C02", "up to 3 variables with arbitrary non-negative distances (ties included), 4 variables without ties, all five linkages, every number of groups", [dict(harness="cluster.cpp", sources=CLU, entries=E("hc_single3 hc_complete3 hc_uavg3 hc_wavg3 hc_ward3 hc_single4 hc_complete4 hc_uavg4 hc_wavg4 hc_ward4 hc_bad"))])
P("C03", "up to 3 variables of one or two observations, all values and thresholds, every number of groups, a second data set given to the same object", [dict(harness="cluster.cpp", sources=CLU, entries=E("gd_uavg_euclid gd_single_manh gd_complete_max gd_size gd_nan"))])
POL = MAT + ["ldt_math/polynomials/polynomial.cpp", "ldt_math/polynomials/mpolynomial.cpp", "ldt_math/derivative.cpp"]
P("P01", "scalar polynomials of up to 4 coefficients, powers up to 3, matrix polynomials of degree up to 2 (3 for size 1) and size up to 2, inverses of up to 4 terms, every truncation, objects used twice", [dict(harness="poly.cpp", sources=POL, entries=E("po_data po_mul po_pow po_int pm_data pm_mul pm_mulscalar pm_inv1 pm_inv2"))])
P("P02", "all quadratic functions of up to 2 variables, cubic and quartic functions of one variable, all points, 1 to 3 refinements", [dict(harness="poly.cpp", sources=POL, entries=E("d1_quad d1_cubic d2_quad d2_cubic d2_quartic"))])
SEA = MAT + ["ldt_statistics/modeling/search/searcher.cpp", "ldt_statistics/modeling/search/summary.cpp", "ldt_statistics/modeling/search/modelset.cpp", "ldt_statistics/modeling/search/searcher_reg.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_statistics/distributions/distributions_uni.cpp"]
P("R01", "up to 4 partitions of up to 3 variables, every model size and number of fixed partitions, 1 to 3 targets, a failure of every kind at every model, cancellation at every model", [dict(harness="search.cpp", sources=SEA, entries=E("se_enum se_targets1 se_targets2 se_fail se_states se_cancel se_bad"))])
P("R02", "up to 4 models in two searchers, every distribution of them, best counts 0..3, all metrics, weights, means and variances (every missing pattern where a value may be missing)", [dict(harness="search.cpp", sources=SEA, entries=E("su_best3 su_best4 su_all su_inclusion su_extreme2 su_mix2 su_mix3 su_cdf su_reg_endo su_reg_exo su_reg_type1 su_options su_checks"))])
VMA = DAT + ["ldt_math/polynomials/polynomial.cpp", "ldt_math/polynomials/mpolynomial.cpp", "ldt_math/derivative.cpp", "ldt_math/optimization/lmbfgsb.cpp"] + ["ldt_statistics/modeling/time_series/varma/varma%s.cpp" % x for x in ["", "_sizes", "_arma", "_restriction", "_forecast"]] + ["ldt_statistics/distributions/distributions_uni.cpp"]
P("T01", "p <= 5, q, P, Q <= 2, d <= 3, D <= 2, up to 4 seasons, all numbers of observations up to 1000, 1-5 equations and 0-5 exogenous variables; differencing of up to 3 observations of 1-2 series with all values", [dict(harness="varma.cpp", sources=VMA, entries=E("vs_lags vs_diff vs_bad vs_names df_diff"))])
P("T02", "1 equation with p, q, d <= 2 (p <= 4 with one seasonal lag of period 3), 2 equations with p <= 2 and q, d <= 1, up to 4 terms of the infinite moving average, all coefficients; restrictions of up to 3 equations with p, q <= 2 and every set of restricted coefficients among the last 4", [dict(harness="varma.cpp", sources=VMA, entries=E("ar_uni ar_season ar_multi ar_size re_final re_general"))])
P("T03", "1-2 equations, AR order <= 2 (seasonal order 1 of period 3), differences <= 1, <= 2 exogenous variables, <= 3 usable observations, 0-1 observations kept out of the sample; restrictions with one free parameter, with and without a constant; all data (condition number: two observations with fixed lags)", [dict(harness="varmaest.cpp", sources=VMA, entries=E("vo_design vo_ols1 vo_ols2 vo_bad vo_cond vo_ma vo_two vo_restr1 vo_restr2"))], outside="more observations and parameters; rank-deficient data beyond what makes the inverse undefined")
VML = [s for s in VMA if "derivative" not in s and "distributions_uni" not in s]
P("T04", "moving average orders 1-2, ARMA(1,1), VAR with 1-2 equations; data symbolic for 2 usable observations (fixed data for 3 and for two equations), the optimiser's point, its bounds and up to two evaluations symbolic, iteration limits 1..5", [dict(harness="varmaml.cpp", sources=VML, entries=E("ml_ma1 ml_ma2 ml_arma ml_var ml_final ml_restr ml_bounds ml_again ml_limit"))], outside="convergence of the optimiser; AIC/SIC of restricted models; the divisor of the profile variance (n, n-1 or n-f accepted inside the objective)", assumptions=['setulb (L-BFGS-B), numerical derivatives and Student-t tails are an arbitrary environment'])
P("T05", "1-2 equations, AR order <= 2, MA order <= 3, differences <= 2, seasonal period 2-3, horizon <= 3, exogenous data given from the start or for the horizon only, all estimates and data", [dict(harness="varmafor.cpp", sources=VMA, entries=E("vf_ar vf_diff vf_season vf_ma vf_multi vf_horizon vf_short"))], outside="longer horizons and higher orders")
VSM = DAT + ["ldt_statistics/modeling/time_series/varma/varma%s.cpp" % x for x in ["_sizes", "_simulation"]] + ["ldt_math/polynomials/polynomial.cpp", "ldt_statistics/distributions/distributions_uni.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_statistics/pca.cpp"]
P("T06", "<= 3 simulations, horizons {1}, {2}, {1,2}, {1,3}, every pattern of failures and of maximum failures, all data, forecasts and variances", [dict(harness="varmasim.cpp", sources=VSM, entries=E("vs_mae vs_rmse vs_percent vs_sign vs_direction vs_crps vs_boxcox vs_invalid vs_extended vs_extended2 vs_cancel vs_sizes"))], outside="CRPS with Box-Cox transformation; unsorted horizons; early stop combined with failures in the same simulation", assumptions=['estimation and forecasting of one simulation are an arbitrary environment that may fail'])
SUR = DAT + ["ldt_statistics/modeling/linear/sur%s.cpp" % x for x in ["", "_projection", "_extended"]] + ["ldt_statistics/pca.cpp"]
P("U01", "1-2 equations, 1-2 regressors, 1-4 observations; given data with one symbolic cell (all of y for one equation), restrictions from 1 to 3 free parameters, one symbolic restriction; search limits 1-3 with every significance outcome", [dict(harness="sur.cpp", sources=SUR, entries=E("su_un1 su_un2 su_un3 su_un4 su_un5 su_cond su_res1 su_res2 su_res3 su_res4 su_res5 su_search su_bad"))], outside="F statistic and its p-value; the divisor of AIC (k m parameters) is the documented one", assumptions=["Student-t and F distribution functions are arbitrary functions"])
P("U02", "projections: 1-2 equations, 1-2 regressors, up to 2 new observations, up to 2 free parameters, all values; extended model: one equation, 3-4 observations, patterns of missing values, one symbolic cell, symbolic new value and limits", [dict(harness="sur.cpp", sources=SUR, entries=E("su_proj_un su_proj_r su_proj_bad su_ext su_ext_bad"))], outside="PCA of the data; checks with projections limits", assumptions=["Student-t and F distribution functions are arbitrary functions"])
P("U03", "2-4 observations and a smaller data set than the capacity, 1-2 equations, 2 regressors, up to 3 simulations each of which may fail in 4 ways, every output of the random generator, all data, projections, variances and condition numbers, every metric and four lists of metrics, fixed sizes and ratios", [dict(harness="sursim.cpp", sources=DAT + ["ldt_statistics/modeling/linear/sur_simulation.cpp", "ldt_statistics/data_split.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_statistics/distributions/distributions_uni.cpp"], entries=E("um_one um_two um_many um_lambda um_fail um_fail3 um_rows um_dir um_iter"))], outside="estimation and projection of one model (U01, U02) are replaced by arbitrary results")
OPT = MAT + ["ldt_math/optimization/%s.cpp" % x for x in ["newton", "nelder_mead", "lmbfgsb"]]
P("O01", "1-2 variables, up to 4 iterations (2 for two variables), an arbitrary objective (every value of every new point), every pattern of bounds, a failing evaluation at every position of the first ones; one-dimensional search: up to 3 iterations", [dict(harness="optim.cpp", sources=OPT, entries=E("nm_free1 nm_free2 nm_lower nm_upper nm_both nm_throw nm_throw2 nm_rule1 nm_rule2 nm_stop nm_bad nm1_free nm1_lower nm1_upper nm1_both nm1_stop"))], outside="convergence to a minimum; objectives that return NaN")
P("O02", "1-2 variables, up to 3 steps without and 2 with a line search (at most 5 function values), arbitrary values, gradients and symmetric Hessians, values or gradients that do not exist at one of the first trial points", [dict(harness="optim.cpp", sources=OPT, entries=E("nw_full1 nw_full2 nw_line1 nw_line12 nw_line2 nw_nan nw_nang nw_quad nw_stop nw_size"))], outside="line searches with more trials; convergence to a minimum")
P("O03", "1-2 variables, 1-3 corrections, up to 3 calls of the numerical routine with every task, every pattern of missing and infinite bounds, all points and values", [dict(harness="optim.cpp", sources=OPT, entries=E("lb_drive lb_bad"))], outside="the L-BFGS-B routine itself (setulb), which is the environment", assumptions=["setulb follows its documentation: it may write all of its work arrays and returns any task and any point"])
DCM = DAT + ["ldt_statistics/modeling/discrete/discrete_choice.cpp", "ldt_statistics/statistics/statistics.cpp", "ldt_statistics/distributions/distributions_uni.cpp"]
P("B01", "binary models: 1-3 observations of one regressor, 2 of two; ordered models: 3 observations with 3 outcomes (1-2 regressors), 4 with 4; every labelling (4 outcomes: every rotation), all data and weights in [-4, 4] and [1/4, 8], every evaluation point", [dict(harness="dc.cpp", sources=DCM, entries=E("dc_lik_logit dc_lik_logit2 dc_lik_probit dc_lik_probit2 dc_lik_ologit dc_lik_ologit4 dc_lik_oprobit dc_lik_oprobit4 dc_lik_ologit2 dc_lik_oprobit2"))], outside="convergence of Newton's method (O02); overflow of exp and underflow of the tails (reals)", assumptions=["Newton's method is an arbitrary environment that evaluates the three functions anywhere and ends anywhere"])
P("B02", "2-3 observations of one regressor with all data (fixed data and all weights for two parameters), every final point of the optimiser; probabilities: 1-2 regressors, 1-2 new observations, 2-4 outcomes, all values", [dict(harness="dc.cpp", sources=DCM, entries=E("dc_res_logit dc_res_probit dc_res_logit2 dc_res_ologit dc_prob_logit dc_prob_probit dc_prob_ologit dc_prob_oprobit dc_bad"))], outside="singular Hessians; quality of the starting values", assumptions=["Newton's method is an arbitrary environment that evaluates the three functions anywhere and ends anywhere"])
DCX = DAT + ["ldt_statistics/modeling/discrete/discrete_choice_extended.cpp", "ldt_statistics/scoring/roc.cpp", "ldt_statistics/scoring/frequency_cost.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_math/auc.cpp", "ldt_statistics/pca.cpp"]
P("B03", "binary models with 2-3 observations, an intercept and one regressor, weights, every pattern of observations with a missing value (any column), 0-2 forecasts, 0-2 cost tables, all values and probabilities; capacities from 1 to 3", [dict(harness="dcext.cpp", sources=DCX, entries=E("dx_plain dx_nan dx_cost dx_auc dx_size"))], outside="principal components of the regressors; ordered models (their in-sample evaluation is documented as not implemented)", assumptions=["the estimated model is an arbitrary environment that answers with any probabilities"])
DCS = DAT + ["ldt_statistics/modeling/discrete/discrete_choice_sim.cpp", "ldt_statistics/data_split.cpp", "ldt_statistics/scoring/roc.cpp", "ldt_statistics/scoring/frequency_cost.cpp", "ldt_statistics/scoring/scoring.cpp", "ldt_math/auc.cpp", "ldt_statistics/pca.cpp"]
P("B04", "3-5 observations, up to 3 simulations with every split and every pattern of failures, up to 2 cost tables, all weights, probabilities and costs; a data set smaller than the one the object was made for", [dict(harness="dcsim.cpp", sources=DCS, entries=E("dm_brier dm_brier_only dm_cost dm_auc dm_freq dm_fails dm_rows dm_cancel dm_bad"))], outside="principal components; costs of single observations in the AUC", assumptions=["estimation and prediction are an arbitrary environment that may fail", "the random generator may return any value"])
SUS = DAT + SEA[len(MAT):] + ["ldt_statistics/modeling/linear/sur_modelset.cpp"]
P("R04", "3, 6 or 7 observations, 3 endogenous variables with 1-3 targets, 1-3 regressors, models of 1-2 regressors, one missing cell anywhere, groups of 1-3 variables, every subset of the metrics up to 3, a failure or cancellation at every model, all reported values", [dict(harness="surset.cpp", sources=SUS, entries=E("ss_in ss_out ss_rows ss_opts ss_coef ss_fail ss_cancel ss_lambda ss_search ss_seed ss_bad"))], outside="groups that list a target after another variable; parallel search", assumptions=["estimation and simulation of one model are an arbitrary environment that may fail"])
DCT = DAT + SEA[len(MAT):] + ["ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp", "ldt_statistics/scoring/roc.cpp", "ldt_statistics/scoring/frequency_cost.cpp", "ldt_math/auc.cpp"]
P("R03", "3-4 observations, an intercept and up to 2 regressors, 2-4 outcomes, weights, one missing cell anywhere, every kind of model, up to 2 cost tables, every subset of the metrics, a failure or cancellation at every model, all reported values, probabilities, weights and costs", [dict(harness="dcset.cpp", sources=DCT, entries=E("sd_data sd_coef sd_brier sd_auc sd_cost sd_out sd_both sd_checks sd_fail sd_cancel sd_seed sd_bad"))], outside="costs of single observations in the in-sample AUC; in-sample metrics of ordered models other than AIC and SIC; parallel search", assumptions=["estimation and simulation of one model are an arbitrary environment that may fail"])
VMT = DAT + SEA[len(MAT):] + ["ldt_statistics/modeling/time_series/varma/varma%s.cpp" % x for x in ["_sizes", "_restriction", "_modelset"]] + ["ldt_math/polynomials/polynomial.cpp"]
P("R05", "1-3 endogenous variables in partitions of any order with 1-3 targets, up to 2 exogenous variables in up to 2 groups, models of 1-2 variables, ranges of different starts and ends, every maximum of the orders up to 2 (seasonal: 1), horizons up to 2, every subset of the metrics up to 2, a failure or cancellation at every model, all reported values and bounds", [dict(harness="varmaset.cpp", sources=VMT, entries=E("sv_in sv_range sv_disjoint sv_orders sv_out sv_opts sv_forecast sv_bounds sv_bounds2 sv_checks sv_lambda sv_fail sv_cancel sv_bad"))], outside="the minimum degrees of freedom (the code does not count lags); more horizons kept than forecast; parallel search", assumptions=["estimation, forecasting and simulation of one model are an arbitrary environment that may fail"])

DIS = MAT + ["ldt_statistics/distributions/mixture.cpp"]
P("X01", "mixtures of 1-3 (samples: 1-4) arbitrary components (higher moments: 1-2) with all weights, moments, densities and distribution functions; supports of up to 7 integers; samples of 2 draws with every random number", [dict(harness="mix.cpp", sources=DIS, entries=E("mx_moments2 mx_moments4 mx_normal mx_function mx_range mx_support mx_sample mx_bad"))], outside="the random number engine; components without finite moments", assumptions=["the components are an arbitrary environment"])
P("X02", "103 quantiles of which any two neighbours are arbitrary, every point and probability, 392 probabilities in steps of 0.0025 as doubles; combinations of up to 3 distributions with all weights", [dict(harness="emp.cpp", sources=MAT + ["ldt_statistics/distributions/empirical103.cpp"], entries=dict(E("em_cdf em_quantile em_limits em_combine em_mid"), em_points=dict(opts=["--no-exact"])))], outside="equal neighbouring quantiles; the minimiser (O01)", assumptions=["the minimiser of a combination returns an arbitrary point"])
P("X03", "14 standard distributions with all valid parameters (second parameter of beta, gamma and F: 0.5, 1 or 3; moments: parameters in [0.05, 10]); up to 4 trials and 6 values of discrete distributions", [dict(harness="uni.cpp", pre="specfun.h", sources=MAT + ["ldt_statistics/distributions/distributions_uni.cpp", "ldt_statistics/distributions/distribution_gld.cpp"], entries=dict(E("un_property un_moments un_tails un_normal un_inverse un_inverse2 un_limits un_discrete un_discrete_quantile un_poisson un_mode un_support un_bad un_sure"), un_log=dict(opts=["--no-exact"]), un_density=dict(opts=["--no-exact"])))], outside="the values of special functions; densities with the gamma function; sampling; the generalised lambda distribution", assumptions=["incomplete beta functions of whole arguments are exact, other special functions are an arbitrary environment in which functions and their inverses agree"])
P("X04", "1-4 values and 2-3 edges with every missing pattern; automatic ranges, given ranges and steps with up to 3 intervals", [dict(harness="hist.cpp", sources=STA + ["ldt_statistics/distributions/histogram.cpp"], entries=dict(E("hi_axis hi_auto hi_given hi_step"), hi_round=dict(opts=["--no-exact"])))], outside="infinite data; unordered edges", assumptions=[])
