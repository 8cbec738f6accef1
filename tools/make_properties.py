#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})
TS = "quantfinlib/train_test_split/"
prop("C01", "K-fold test folds tile the data and never split a group",
 "For every sorted list of groups and every feasible setting, the test folds yielded by TimeAwareKFold.split are, in order, non-empty contiguous index ranges that are pairwise disjoint and cover every sample, where fold boundaries are the equal-size boundaries (fold sizes differing by at most one, larger folds first) moved forward to the end of the group they would cut; with look_forward the first fold is left out. "
 "The number of splits equals get_n_splits(), and groups given as an array, a Series with any index, or a DatetimeIndex are addressed by position. "
 "Settings that cannot give such folds (fewer samples than folds, a group that spans a whole fold, purge plus embargo too large for the data) raise an exception instead of yielding an empty fold.",
 ["inputs", "configurations"], "all sample counts, group multiplicities and gaps, fold counts, containers of groups, look_forward",
 "The tests draw a few random group vectors with small fold counts and only assert that train and test groups do not overlap; they never assert coverage, order, non-emptiness or the number of splits.",
 [TS+"kfoldpe.py", TS+"_base.py"], [("np.array_split + _modify_fold_bounds", TS+"kfoldpe.py"), ("_validate_split_settings", TS+"kfoldpe.py"), ("_positional_groups", TS+"_base.py")], ["TimeAwareKFold.split", "TimeAwareKFold.get_n_splits"])
prop("C02", "K-fold training sets contain exactly the samples that cannot leak",
 "For every split of TimeAwareKFold, the training indices are, in ascending order and without duplicates, exactly those samples whose group is not a group of the test fold, is not in (last test group, last test group + n_purge], and is not in [first test group - n_embargo, first test group); with look_forward they are in addition all before the first test group. "
 "Distances are measured in group values, or in freq units when freq is given with datetime groups. "
 "A split that would have no training sample raises ValueError.",
 ["inputs", "configurations"], "all groups (duplicates, gaps, datetimes of any resolution), purge and embargo lengths, fold counts, look_forward",
 "Tests only check inequalities on the extremes of random train/test groups; a training set that is too small, that drops the wrong side, or that leaks only with gaps or at the ends passes them.",
 [TS+"kfoldpe.py", TS+"_base.py"], [("_purge / _embargo", TS+"_base.py"), ("_get_train_index_per_split", TS+"kfoldpe.py")], ["TimeAwareKFold.split"])
prop("C03", "Walk-forward training never reaches the test window or its embargo",
 "In every split of WalkForward all training groups precede all test groups, and no training group lies within n_embargo before the first test group. "
 "The test set is exactly the samples whose groups lie in the window of test_window units that starts with the first group after the training window; the training set is exactly the samples from the first group on (expanding) or of the last train_window units (rolling) up to the last group before the test window, less the embargoed ones. "
 "This holds for integer and datetime groups, with duplicates and with gaps such as weekends, addressed by position.",
 ["inputs", "configurations", "histories"], "all group vectors incl. gaps, window sizes, embargo, split types, freq units",
 "Tests use groups without gaps and only compare extreme groups of the two sets; the leak across gaps that this work repaired passed them.",
 [TS+"walk_forward.py", TS+"_base.py"], [("window boundaries by searchsorted", TS+"walk_forward.py"), ("_embargo", TS+"_base.py")], ["WalkForward.split"],
 [("train_start/train_end/test_start/test_end", "group boundaries of the current windows", TS+"walk_forward.py split")])
prop("C04", "Walk-forward sweeps terminate, cover the future once, and are counted right",
 "A complete sweep of WalkForward.split terminates, its test sets are non-empty, in time order, pairwise disjoint, and together they are exactly the samples after the first training window. "
 "After a completed sweep get_n_splits() is the number of splits of the sweep completed last, whatever sweeps were run, abandoned or interleaved before on the same object; before any completed sweep it is 0 with a warning. "
 "Windows shorter than one unit, or a training window that covers all groups, raise ValueError.",
 ["inputs", "configurations", "histories", "schedules"], "all group vectors and windows; all sequences and interleavings of sweeps on one splitter object",
 "Tests run one sweep per splitter on gapless groups and check only that the last test set reaches the last group.",
 [TS+"walk_forward.py"], [("sweep loop and n_splits bookkeeping", TS+"walk_forward.py")], ["WalkForward.split", "WalkForward.get_n_splits"],
 [("n_splits/_finalized_splits", "number of splits of the last completed sweep", TS+"walk_forward.py")])
SM = "quantfinlib/sim/"
prop("C05", "Simulated paths follow the model's exact one-step law",
 "Every path returned by path_sample of BrownianMotion, GeometricBrownianMotion and OrnsteinUhlenbeck starts at x0, and each next value is the exact transition of the documented process for the given drift or mean, mean reversion rate, volatility and dt, applied to a standard-normal shock (multiplied by the Cholesky factor of cor when given). "
 "For one seed and one shape the shocks are the same whatever the model and its parameters are, and they are independent across steps, paths and variates. "
 "Hence paths of a multivariate model have the requested correlations, GeometricBrownianMotion stays positive, and zero volatility gives the deterministic solution.",
 ["inputs", "configurations"], "all parameters, dt, numbers of steps, paths and variates, correlations, seeds",
 "Tests check shapes, and for a few settings sample means; wrong scaling in dt, a transposed correlation factor or shared shocks between paths pass them.",
 [SM+"_bm.py", SM+"_gbm.py", SM+"_ou.py", SM+"_base.py"], [("_path_sample_np", SM+"_bm.py, _gbm.py, _ou.py"), ("_fill_with_correlated_noise, set_x0", SM+"_base.py")], ["path_sample"])
prop("C06", "Simulated output has the requested layout, labels and container",
 "path_sample returns num_steps + 1 rows, or num_steps rows without the row of x0 when include_x0 is False (all other rows and labels unchanged), and one column per path and variate with all variates of a path adjacent. "
 "The output is a numpy array unless date labels, columns or a fit on pandas data ask for pandas; then it is a Series exactly if there is one column and the model was not fitted or was fitted on a Series, and otherwise a DataFrame; columns are named after columns, else after the fitted columns, else S or S0, S1, ..., with suffix _<path> if there are several paths. "
 "With date labels the index is the date range from label_start with label_freq, one label per row.",
 ["inputs", "configurations", "histories"], "all combinations of fit container, labels, columns, include_x0, numbers of paths and variates",
 "Tests sample a few of the combinations; the combinations repaired here (Series without x0, columns without dates) raised exceptions unnoticed.",
 [SM+"_base.py"], [("_format_ans, _make_columns_names, _make_date_time_index", SM+"_base.py")], ["path_sample"])
prop("C07", "Seeded simulation is reproducible and isolated from all other randomness",
 "For the same model parameters, fitted state, arguments and random_state, path_sample returns identical values, whatever was sampled, fitted or scored before on this or another model, and whatever the state of the global numpy and Python generators is. "
 "Sampling neither reads nor changes the global generators, and distinct seeds, or no seed, give distinct shocks on every call.",
 ["histories", "inputs"], "all call histories over all models and seeds, with arbitrary use of the global generators in between",
 "Tests draw with one seed at most twice in a row; no test interleaves models, reseeds global generators, or reuses a model.",
 [SM+"_base.py", SM+"_quasi_random.py"], [("default_rng(random_state)", SM+"_base.py _fill_with_correlated_noise")], ["path_sample"])
prop("C08", "Calibration returns the documented estimators, column by column",
 "fit on data with T rows sets drift and volatility of BrownianMotion to the mean and the sample standard deviation (n-1) of the one-step changes, annualised with dt; GeometricBrownianMotion does so on log-changes, adding half the variance to the drift so that the fitted model has the observed mean log-change; OrnsteinUhlenbeck derives mean, rate and volatility from the least-squares regression of each value on its predecessor. "
 "The parameters of a column depend only on that column, and the correlation matrix is that of the one-step changes or residuals; permuting columns permutes the results. "
 "dt defaults to the duration of the frequency of the date index, and to 1/252 without a recognisable frequency.",
 ["inputs"], "all data sets, numbers of columns, containers, dt and date frequencies",
 "Tests fit constant data or only check that a result exists; the multi-column Ornstein-Uhlenbeck fit and the drift of the geometric model were wrong.",
 [SM+"_bm.py", SM+"_gbm.py", SM+"_ou.py", SM+"_base.py"], [("_fit_np", SM+"_bm.py, _gbm.py, _ou.py"), ("_preprocess_fit_x_and_dt", SM+"_base.py")], ["fit", "drift, vol, mean, mrr, cor"])
prop("C09", "Scores are the exact likelihood of the simulated transition law",
 "nll(x, dt) is minus the sum over steps of the log density of the model's own one-step transition law, the law path_sample draws from, for univariate, independent and correlated multivariate models. "
 "aic is 2k + 2 nll and bic is k ln(n) + 2 nll, with n rows and k the number of parameters of the model including its distinct correlations. "
 "Scores do not depend on the container of the data nor on earlier calls.",
 ["inputs", "histories"], "all models, parameters, data sets, dt",
 "Tests call the functions and ignore the result; the geometric model's likelihood lacked dt.",
 [SM+"_bm.py", SM+"_gbm.py", SM+"_ou.py", SM+"_base.py"], [("_nll", SM+"_bm.py, _gbm.py, _ou.py"), ("SimNllMixin", SM+"_base.py")], ["nll", "aic", "bic"])
prop("C10", "Defaults of a simulation come from the most recent fit and nothing else",
 "After any history of fit, nll, aic, bic and path_sample calls, the defaults of path_sample are those of the most recent fit: x0 omitted or 'first' is its first row and 'last' its last row, labels start at the corresponding date and have its frequency and index name, and dt is its dt; an explicit argument always wins, and an explicit label_freq with a known duration determines dt. "
 "An unfitted model defaults to x0 0 (100 for the geometric model) and dt 1/252, and rejects 'first' and 'last'. "
 "Scoring and sampling change nothing that a later call can observe.",
 ["histories", "configurations"], "all interleavings of fit, score and sample calls with all default/explicit argument combinations",
 "Tests make one fit followed by one sample; scoring in between corrupted the defaults unnoticed.",
 [SM+"_base.py"], [("fit_* attributes", SM+"_base.py"), ("_preprocess_sim_path_args", SM+"_base.py")], ["path_sample", "fit", "nll"],
 [("fit_x0_, fit_xn_, fit_dt_, fit_index_, fit_container_dtype_, fit_column_names_", "what the last fit saw", SM+"_base.py")])
prop("C11", "Quasi-random paths are base paths plus a lagged, rescaled signal",
 "path_sample of QuasiRandom equals the base model's path for the same seed plus the running sum of the technical indicator of the base path, lagged by one step (undefined indicator values count as zero), rescaled so that its standard deviation is f_signal_vol times the base volatility times sqrt(dt), path by path. "
 "The first value is x0 and, for an indicator that is itself causal, the signal in each step depends only on earlier base values up to the rescaling constant. "
 "f_signal_vol of 0 gives the base path itself.",
 ["inputs", "configurations"], "all indicators, base models, signal strengths, numbers of paths, seeds",
 "Tests check shape, and one correlation sign; an unlagged signal (look-ahead) or mixed-up paths pass.",
 [SM+"_quasi_random.py"], [("_path_sample_np", SM+"_quasi_random.py")], ["QuasiRandom.path_sample"])
FI = "quantfinlib/feature/indicators/"; FM = "quantfinlib/feature/micro_structure/"
prop("C12", "Features never look ahead",
 "For every indicator, band, volatility, spread, liquidity measure and the CUSUM statistic, the output at position t depends only on inputs at positions up to t: appending rows, or changing rows after t, never changes the outputs up to t (up to rounding). "
 "Output has one value per input row.",
 ["inputs", "histories"], "all series, all window settings, all split points between past and future",
 "Tests compute each feature once on a full series; look-ahead by one bar cannot be seen that way.",
 [FI+"_base.py", FI+"_bands.py", FI+"_rsi.py", FI+"_macd.py", FM+"_price_sequences.py", FM+"_strategic_trade_models.py", FM+"_sequential_trade_models.py", "quantfinlib/feature/structural_breaks/cusumtest.py"],
 [("rolling, ewm, shift and diff of the past only", FI+" and "+FM)], ["all public feature functions"])
prop("C13", "Features preserve container and index, and numpy equals pandas",
 "Every indicator and micro-structure function returns for pandas Series inputs a Series with the same index, and for numpy inputs a numpy array holding the same values; results depend on the order of rows, not on index labels. "
 "Mixing numpy arrays and Series in one call, or passing any other type, raises TypeError. "
 "Positional and keyword calls are equivalent.",
 ["inputs", "configurations"], "all public feature functions, index types and dtypes",
 "Tests use default or daily indexes only, for some of the functions.",
 [FI+"_base.py", FM+"_price_sequences.py"], [("numpy_io_support", FI+"_base.py")], ["all decorated feature functions"])
prop("C14", "Indicators equal their definitions at every row",
 "For every finite price series and window, rolling mean, standard deviation (n-1), maximum, minimum and momentum, exponentially weighted mean, standard deviation and momentum (adjusted weights), average true range, RSI (rolling and exponential) and MACD with its signal difference equal their textbook definition at every row, and are undefined (NaN) exactly where the definition lacks data (first window-1 rows for rolling statistics) or divides zero by zero. "
 "Parameters left out take their documented defaults (20; 14 for RSI and true range; 12/26/9 for MACD).",
 ["inputs", "configurations"], "all finite series, lengths (shorter and longer than the window) and windows",
 "Tests compare a few functions on one series with the same pandas expression; defaults, boundaries and flat stretches are not covered.",
 [FI+"_base.py", FI+"_rsi.py", FI+"_macd.py"], [("pandas rolling/ewm expressions", FI)], ["rolling_*, ewm_*, average_true_range, rsi, ewm_rsi, macd, macd_signal"])
prop("C15", "Bands satisfy their identities and ordering in any call order",
 "For Bollinger, exponential Bollinger, Keltner and Donchian bands: middle is the moving average (Donchian: mid-range), upper minus middle equals middle minus lower equals multiplier times the width measure, bandwidth is (upper-lower)/middle, and %B is (price-lower)/(upper-lower). "
 "This includes GenericBands with given mean and width series. lower <= middle <= upper for a non-negative multiplier, and Donchian bands are the rolling extremes, so %B is within [0,1] where defined. "
 "Results do not depend on which methods were called before, nor how often, nor on other band objects, nor on what the caller does with returned results; parameters left out take their documented defaults (window 20, multiplier 2, Keltner true range 10).",
 ["inputs", "histories", "configurations"], "all series, windows, multipliers and call sequences",
 "Tests evaluate each method once on one series.",
 [FI+"_bands.py"], [("GenericBands", FI+"_bands.py")], ["upper, lower, middle, bandwidth, percent_b"])
prop("C16", "Bounded features stay within their bounds",
 "For every series of positive prices and volumes, however extreme, RSI values are within [0,100], VPIN is within [0,1] if buy volume is within [0, volume], estimated buy volume is within [0, volume], rolling minimum <= rolling mean <= rolling maximum, and standard deviations, average true range, close-close, high-low, Rogers-Satchell and Becker-Parkinson volatilities, Corwin-Schultz spread, Roll measure and impact, Kyle, Amihud and Hasbrouck lambdas are non-negative wherever defined (up to rounding). "
 "RSI is 100 in a window of rises only and 0 in a window of falls only.",
 ["inputs"], "all positive price and volume series incl. constant, monotone, jumping and large-magnitude ones",
 "Tests use one random series per function.",
 [FI+"_rsi.py", FM+"_price_sequences.py", FM+"_sequential_trade_models.py", FM+"_strategic_trade_models.py"], [("abs/clip/ratio forms", FI+", "+FM)], ["rsi, get_vpin, estimate_buy_volume, ..."])
prop("C17", "Range-based volatility estimators equal their formulas",
 "At every row with a full window, close-close, high-low (Parkinson), Garman-Klass, Rogers-Satchell, Yang-Zhang and Becker-Parkinson volatility and the Corwin-Schultz spread equal the published formula evaluated on exactly the rows of that window (and the row before where the formula needs the previous close or a two-bar range); other rows are NaN. "
 "Scaling all prices by a constant changes nothing.",
 ["inputs", "configurations"], "all valid open-high-low-close bars and windows",
 "Tests check container types and NaN counts only; the sign error and the wrong open in two estimators passed.",
 [FM+"_price_sequences.py"], [("estimator formulas", FM+"_price_sequences.py")], ["get_*_volatility, get_cowrin_schultz_spread"])
prop("C18", "Liquidity measures equal their formulas",
 "At every row with a full window, Roll measure and impact, Kyle, Amihud and Hasbrouck lambda, VPIN, the bulk-classified buy volume (volume times Student-t(0.25) probability of the scaled price change) and the signed and unsigned edge spread equal their published formula on exactly the rows of that window; other rows are NaN.",
 ["inputs", "configurations"], "all positive price and volume series and windows",
 "Tests check types, signs and one external data set that needs the network.",
 [FM+"_price_sequences.py", FM+"_strategic_trade_models.py", FM+"_sequential_trade_models.py"], [("measure formulas", FM)], ["get_roll_*, get_*_lambda, get_vpin, estimate_buy_volume, get_edge_spread"])
prop("C19", "The CUSUM statistic is the supremum of standardised departures",
 "For every positive price series, the statistic at t >= 1 is the maximum over n < t of the log-price change from n to t, divided by sigma_t sqrt(t-n) with sigma_t^2 the mean squared one-step log change up to t, and the critical value is sqrt(4.6 + ln(t-n*)) for the (first) maximising n*; at t = 0 both are 0. "
 "Scaling all prices by a constant changes nothing.",
 ["inputs"], "all positive price series",
 "Tests run a handful of series and check shape or detection only.",
 ["quantfinlib/feature/structural_breaks/cusumtest.py"], [("chu_stinchcombe_white_cusum_test", "quantfinlib/feature/structural_breaks/cusumtest.py")], ["chu_stinchcombe_white_cusum_test"])
DI = "quantfinlib/distance/"
prop("C20", "Correlation distances are the documented functions, in [0,1], zero on self",
 "corr_to_angular_dist, corr_to_abs_angular_dist and corr_to_squared_angular_dist return sqrt((1-c)/2), sqrt(1-|c|) and sqrt(1-c^2) for numbers and elementwise for matrices, always within [0,1], with an exactly zero diagonal and a symmetric result for correlation matrices, also when entries exceed [-1,1] or unit diagonal by rounding. "
 "The pair_* functions apply them to the Pearson correlation of two vectors. "
 "Matrices that are not square, not symmetric, or without unit diagonal are rejected, and the input matrix is not changed.",
 ["inputs"], "all correlations and correlation matrices up to rounding, all vectors",
 "Tests check a few values and matrices with exactly unit diagonal.",
 [DI+"correlation.py"], [("_convert_correlation_to_distance", DI+"correlation.py")], ["corr_to_*", "pair_*"])
prop("C21", "Information measures equal their histogram definitions",
 "compute_entropies returns the entropies (natural log) of the equal-width histograms of x, of y, and of their joint histogram; mutual_info is Hx+Hy-Hxy, normalised by sqrt(Hx Hy), var_info is 2Hxy-Hx-Hy, normalised by Hxy, and kl_divergence_xy sums p ln(p/q) over bins occupied by both. "
 "The default number of bins is the documented optimum for the sample size and correlation, and is finite for perfectly correlated and anti-correlated variables. "
 "Measures other than KL are symmetric, mutual information and variation of information are non-negative, their normalised forms are at most 1, and the variation of a variable from itself is 0.",
 ["inputs", "configurations"], "all pairs of samples and bin counts",
 "Tests check ranges on a few random samples; with anti-correlated data the bin count overflowed.",
 [DI+"information.py"], [("compute_entropies, mutual_info, var_info, kl_divergence_xy", DI+"information.py")], ["compute_entropies, mutual_info, var_info, kl_divergence_xy"])
prop("C22", "Matrix divergences are divergences and reject non-positive matrices",
 "For all positive definite p and q of equal size, log_det_divergence and von_neuman_divergence equal their documented formulas, are non-negative, and are zero for p equal to q. "
 "log_det_divergence is unchanged when both matrices are scaled or congruence-transformed, and both are unchanged by a common rotation. "
 "A matrix with a non-positive eigenvalue is rejected.",
 ["inputs"], "all pairs of positive definite matrices",
 "Tests use two or three fixed matrices.",
 [DI+"matrix_divergence.py"], [("log_det_divergence, von_neuman_divergence", DI+"matrix_divergence.py")], ["log_det_divergence", "von_neuman_divergence"])
prop("C23", "Distance matrices hold the pairwise distances with labels kept",
 "get_corr_distance_matrix and get_info_distance_matrix return the symmetric matrix whose entry (i,j) is the pairwise measure of columns i and j (Pearson or Spearman correlation turned into the chosen distance; mutual or variation of information with the given bins and norm), with zero diagonal (one for mutual information). "
 "A DataFrame gives a DataFrame labelled by its columns on both axes and equal in value to the result for the array; permuting columns permutes the matrix, and dropping columns gives the submatrix. "
 "A corr_transformer is applied to the correlation before conversion; unknown methods are rejected.",
 ["inputs", "configurations"], "all data sets, containers, methods and options",
 "Tests compare a few matrices with the same building blocks on one data set.",
 [DI+"distance_matrix.py"], [("get_corr_distance_matrix, get_info_distance_matrix, corr_to_dist", DI+"distance_matrix.py")], ["get_corr_distance_matrix", "get_info_distance_matrix", "corr_to_dist"])
CL = "quantfinlib/clustering/"
prop("C24", "Hierarchical clusters are nested agglomerative partitions of the distances",
 "For every data set, correlation or distance matrix and linkage method, HC.linkage is an agglomerative merge sequence over HC.dist: each step merges two distinct live clusters at the recorded distance, which for single, complete and average linkage is the smallest distance between live clusters, and the last step has all items. "
 "get_clusters(k) labels every item, uses exactly k labels, puts items together exactly if they are merged within the first n-k steps, so partitions are nested in k. "
 "Results do not depend on the order or number of calls, and the given matrices decide: dist over corr over X (with ward linkage, Pearson correlation, and the angular distance as defaults); missing data and unknown methods are rejected.",
 ["inputs", "histories", "configurations"], "all matrices, linkage methods, cluster counts and call orders",
 "Tests check cluster counts on one or two data sets.",
 [CL+"hierarchical.py"], [("HC.linkage (lazy), HC.get_clusters", CL+"hierarchical.py")], ["HC.linkage", "HC.get_clusters", "HC.dist"],
 [("_linkage", "memoised linkage", CL+"hierarchical.py")])
prop("C25", "Cluster metrics and the optimal cluster count follow their rules",
 "gap_statistic is the mean over nb uniform reference matrices (symmetric, zero diagonal, entries up to the largest distance; reference b is drawn with seed random_state + b, or b without one) of ln W minus ln W of the data, with W the sum of squared within-cluster distances over all ordered pairs divided by 4k, and its spread is the standard deviation over the references; it depends on labels only through the partition, and is reproducible per random_state. "
 "silhouette_tstat is the mean over the standard deviation of the silhouette values. "
 "The optimal number is the smallest candidate k from 2 whose gap is at least the next gap less its spread (the largest candidate if there is none), or the first maximiser of the silhouette t-statistic, and is within 2..max_clust; the gap with ten references and candidates up to 20 are the default, and an unknown metric is rejected.",
 ["inputs", "configurations"], "all distance matrices, partitions, candidate ranges",
 "Tests check types and one block data set.",
 [CL+"metrics.py", CL+"hierarchical.py"], [("gap_statistic, silhouette_tstat", CL+"metrics.py"), ("optimize_n_clusters", CL+"hierarchical.py")], ["gap_statistic", "silhouette_tstat", "optimize_n_clusters", "HC.get_optimal_nclusters"])
MA = "quantfinlib/math/cov.py"
prop("C26", "Covariance, correlation and eigen conversions are mutually inverse",
 "For every covariance matrix with variances above the floor, conversion to correlation and standard deviations and back gives the matrix again; correlations are within [-1,1] with unit diagonal. "
 "The eigen decomposition of a correlation matrix has orthonormal eigenvectors with values in decreasing order (the k largest if k is given), reconstructs the matrix, and completing a partial set keeps the given pairs, keeps the eigenvectors orthonormal and makes the values sum to the dimension. "
 "Block-diagonal correlation matrices have the requested blocks and nothing else.",
 ["inputs", "configurations"], "all covariance and correlation matrices, numbers of kept eigenvectors and block structures",
 "Tests check two- and three-dimensional examples.",
 [MA], [("_cov_to_cor, _cor_to_cov, _cor_to_eig, _eig_to_cor, _eig_complete, _cor_block_diagonal", MA)], ["quantfinlib.math.cov"])
prop("C27", "Denoising keeps signal and variances and averages the noise",
 "Denoising a covariance matrix gives a symmetric matrix with the same variances; in correlation terms the k largest eigenvalues and eigenvectors used are those of the input and the remaining eigenvalues are replaced by one common value that keeps their sum (when k is fitted, or eigenvalues are denoised directly, those beyond the number of time steps count as zero). "
 "Without a given k, k is the number of eigenvalues at or above the upper edge of the Marchenko-Pastur distribution whose variance maximises the likelihood over the documented grid. "
 "The input is not changed, and anything but a square array is rejected.",
 ["inputs", "configurations"], "all covariance matrices, numbers of time steps (fewer and more than assets) and k",
 "Tests check shapes and one generated example.",
 [MA], [("_cov_denoise, _cor_denoise, _eigen_values_denoise, _marchenko_pastur_fit", MA)], ["quantfinlib.math.cov"])
prop("C28", "Frequencies of regular date indexes are recognised and have fixed durations",
 "For every start date, a regular index of sufficient length with daily, business-day, weekly (any weekday), month-end, month-start, quarter-end, quarter-start, year-end or year-start dates is classified as D, B, W, ME, MS, QE, QS, YE or YS by time_series_freq, whether given as index, Series or DataFrame and with or without a time zone (sufficient: 16 dates for business days, 5 for months and quarters, 3 for the others); fewer than three dates and non-date indexes give None. "
 "Other indexes get the first of YE, YS, QE, QS, ME, MS with at least two dates on and at most two dates off it, else D with at least two one-day steps and at most two others, else B if nine in ten steps are of one or three days, else W with at least two seven-day steps and at most two others, else None. "
 "time_series_freq_to_duration maps exactly the documented codes to their durations in years and everything else to None.",
 ["inputs"], "all start dates (incl. leap years, year ends), lengths and containers",
 "Tests use one or two start dates per frequency.",
 ["quantfinlib/_datatypes/timeseries.py"], [("time_series_freq, time_series_freq_to_duration", "quantfinlib/_datatypes/timeseries.py")], ["time_series_freq", "time_series_freq_to_duration"])
prop("C29", "Calls leave their inputs and the global random state untouched",
 "No public call of the library (splitters, simulation, features, distances, clustering, covariance tools, datasets) modifies an array, Series, DataFrame, list or index passed to it, nor the global numpy or Python random state (except the random covariance generators, which draw from it), and none writes to standard output. "
 "Repeating a deterministic call with the same arguments gives the same result in any session, whatever was called in between, and in a fresh process. The arrays, Series, DataFrames and fitted models that these functions compute share no memory with the inputs, nor with what the object they came from keeps: changing a result changes neither an input, nor another result, nor a later call (to_numpy, which hands out the data of its argument, is not meant).",
 ["histories", "inputs"], "all sequences of public calls on shared inputs",
 "Tests never look at inputs after a call, nor repeat calls in longer sessions.",
 ["quantfinlib"], [("pure functions on copies", "all modules")], ["every public function"])
prop("C30", "Logger configuration is idempotent and isolated",
 "After any history of configure_logger calls and of importing the library's modules, the library logger has the verbosity of the last call, exactly one console handler and, exactly if the last call asked for it, one file handler on the path of that call; each log record at or above that verbosity is written once to each of them, and handlers that were replaced are closed and receive nothing. "
 "Other loggers are not reconfigured.",
 ["histories"], "all sequences of configure_logger calls, log calls and imports",
 "Tests configure once or twice; duplicated records, leaked handlers and level resets by imports are not looked at.",
 ["quantfinlib/util/_logging.py", "quantfinlib/distance/distance_matrix.py"], [("configure_logger", "quantfinlib/util/_logging.py")], ["configure_logger", "logging.getLogger('quantfinlib')"],
 [("logger.handlers, logger.level", "global logger configuration", "quantfinlib/util/_logging.py")])
prop("C31", "Input validation accepts exactly the documented containers and shapes",
 "Functions guarded by the validation decorators accept one-dimensional Series or arrays with at least two elements, or DataFrames and two-dimensional arrays with at least two columns, raise ValueError for every other type, dimension or size in any guarded argument, whether passed by position or keyword (None, the value of an argument that is left out, is let through), and never alter arguments or results. "
 "Splitters reject unsorted groups and negative purge or embargo with ValueError, and wrong types of data, target or groups with TypeError.",
 ["inputs", "configurations"], "all argument types, shapes, and ways of passing arguments",
 "Tests check one bad input per decorator, positionally.",
 ["quantfinlib/util/_validate.py", TS+"_base.py"], [("validate_series_or_1Darray, validate_frame_or_2Darray", "quantfinlib/util/_validate.py"), ("BaseCV", TS+"_base.py")], ["decorated functions", "BaseCV.split"])
prop("C32", "Example datasets load completely, in date order, and independently",
 "load_vix, load_treasury_rates and load_equity_indices return every row and column of the shipped files with the documented column names, a strictly increasing DatetimeIndex named DATE and numeric values equal to the file; each call returns a fresh frame, so changing a returned frame never shows in a later load, in any order of loads and from any working directory.",
 ["histories"], "all sequences of loads and modifications of loaded frames",
 "Tests check type and column names once.",
 ["quantfinlib/datasets/_dataloader.py"], [("_load_csv_gz_to_df, rename", "quantfinlib/datasets/_dataloader.py")], ["load_vix", "load_treasury_rates", "load_equity_indices"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
