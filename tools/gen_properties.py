"""Single source of properties.jsonl (python3 tools/gen_properties.py)."""
import json, os

B = "optbinning/binning/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w)
                                 for n, m, w in state]
    P.append(d)


prop("B01", "Binary binning honours every requested constraint",
     "For a binary target, whenever a fit reports an OPTIMAL or FEASIBLE status the bins it returns respect every constraint the user requested: minimum/maximum number of bins, minimum/maximum bin size and event/non-event counts, the requested monotonic trend of the event rate (any supported shape), the minimum event-rate difference between consecutive bins, the maximum p-value (consecutive or all pairs) and the fixed user splits. "
     "A monotonicity that was requested is never silently dropped, and when the constraints cannot be met the fit reports INFEASIBLE and returns the single-bin (no split) solution.",
     ["inputs", "configurations"],
     "Every dataset (numerical or categorical, with or without missing/special values), every combination of constraints, divergences and solvers (CP and MIP).",
     "The tests fix one dataset (breast cancer) and a few options; constraints interact, and a constraint that is dropped or off by one only shows on data where it is binding.",
     [B + "binning.py", B + "cp.py", B + "mip.py", B + "model_data.py", B + "auto_monotonic.py"],
     [("constraint generation", B + "cp.py: build_model, add_*"), ("constraint generation (MIP)", B + "mip.py: build_model, add_*"),
      ("size fractions to counts", B + "binning.py: _fit_optimizer")],
     observe=["OptimalBinning.status", "OptimalBinning.splits", "binning_table.build()"])

prop("B02", "Binary binning is optimal and independent of the solver",
     "When a fit for a binary target reports OPTIMAL, no other merging of the same pre-bins that satisfies the same constraints attains a larger value of the selected divergence (IV, Jensen-Shannon, Hellinger or triangular), and when a feasible merging exists the fit does not report INFEASIBLE. "
     "Consequently the CP and MIP solvers report the same optimal objective on the same problem.",
     ["inputs", "configurations"],
     "Every dataset and every supported constraint set small enough that all mergings of the pre-bins can be enumerated, both solvers, all divergences, with and without regularisation.",
     "Tests compare against stored splits of one dataset; global optimality is a statement over all 2^(n-1) mergings of every instance.",
     [B + "cp.py", B + "mip.py", B + "model_data.py", B + "preprocessing.py"],
     [("objective coefficients per merged interval", B + "model_data.py: model_data"), ("CP objective/constraints", B + "cp.py"), ("MIP objective/constraints", B + "mip.py")],
     observe=["OptimalBinning.status", "OptimalBinning.splits"])

prop("B03", "Every training record is counted in exactly one row",
     "The fitted binning table of a binary target partitions the training data: recounting the raw data by the displayed bin edges, categories, special codes and missing values gives, for every row, exactly the record, non-event and event counts shown, and the rows add up to the totals. "
     "This holds for numerical and categorical variables, grouped special codes, rare categories sent to the 'others' group, integer sample weights and class labels, whatever the pre-binning method.",
     ["inputs", "configurations"],
     "Every dataset (ties, constants, discrete values, missing, special codes, high-cardinality categories), every configuration of the pre-binning and optimisation.",
     "The tests compare aggregate numbers on one continuous variable; lost or double-counted records appear only with ties at the edges, special groups, cut-off categories or refinements.",
     [B + "binning.py", B + "preprocessing.py", B + "binning_statistics.py", B + "prebinning.py"],
     [("raw data split", B + "preprocessing.py: split_data"), ("pre-bin counting and refinement", B + "binning.py: _compute_prebins"), ("merged counts", B + "binning_statistics.py: bin_info")],
     observe=["binning_table.build()"])

prop("B04", "Binning-table statistics equal their definitions",
     "Every statistic of the binary binning table and its analysis (count %, event rate, WoE, IV, Jensen-Shannon, totals, Gini, IV/JS/Hellinger/triangular divergences, Kolmogorov-Smirnov, HHI, quality score, pairwise significance tests) equals the value obtained by its textbook definition from the counts of that same table. "
     "Rows with a zero event or non-event count show finite values (zero), special and missing rows contribute to the totals, and building or analysing a table never changes what is reported afterwards.",
     ["inputs", "histories"],
     "Every count profile, including zero counts, one bin, several special groups, and any order of build/analysis calls.",
     "Tests assert a handful of digits for one table; the formulas must hold for all count vectors including degenerate ones.",
     [B + "binning_statistics.py", B + "metrics.py"],
     [("row statistics", B + "binning_statistics.py: BinningTable.build"), ("divergences", B + "metrics.py"), ("analysis", B + "binning_statistics.py: BinningTable.analysis")],
     observe=["binning_table.build()", "binning_table.analysis()", "BinningTable attributes iv, js, gini, ks, ..."])

prop("B05", "Transform agrees with the binning table",
     "Transforming any value with a fitted binary binning returns exactly the WoE, event rate, bin index or bin label of the table row that contains that value; edges follow the half-open [a, b) convention shown in the label. "
     "Special codes and missing values receive the requested number or, with 'empirical', the value of their own row, and unseen categories receive the configured unknown value or the documented default.",
     ["inputs", "configurations"],
     "Every fitted binning, every query value (edges, one ulp around edges, infinities, unseen values, missing, special codes), every metric and every treatment of special/missing.",
     "Tests transform the training vector of one variable; disagreement between fit and transform shows only at edges, special groups or unseen categories.",
     [B + "transformations.py", B + "binning.py"],
     [("value to bin", B + "transformations.py: _apply_transform, _transform_metric_indices_array"), ("row metric", B + "transformations.py: transform_event_rate_to_woe")],
     observe=["OptimalBinning.transform", "binning_table.build()"])

prop("B06", "Transform is a pure record-wise function",
     "For every kind of binning (binary, continuous, multiclass, scenario, piecewise, two-dimensional) the transform of a record depends only on that record's value and the fitted model: permuting, subsetting, repeating or concatenating the input permutes, subsets, repeats or concatenates the output, the container type (list-like array, pandas) does not matter, and calling transform changes neither the model nor the input. "
     "fit_transform returns the same result as fit followed by transform with the same arguments, and several threads may transform with one fitted model at the same time.",
     ["inputs", "histories"],
     "Every input vector and every sequence of transform calls on a fitted model.",
     "Tests call transform once on the training vector; aliasing, in-place clipping and batch dependence need other batches and repeated calls.",
     [B + "transformations.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "piecewise/transformations.py", B + "multidimensional/transformations_2d.py"],
     [("transform implementations", B + "transformations.py"), ("fit_transform wrappers", B + "*.py: fit_transform")],
     observe=["fit_transform", "transform"])

prop("B07", "Fitting is independent of history and has no side effects",
     "Refitting an estimator object gives the same result as fitting a fresh object with the same parameters, whatever was fitted or transformed before, and fitting twice on the same data gives the same result, also while other threads fit other objects. "
     "Fitting, transforming and reporting never modify the user's input arrays, dataframes or the constructor parameters reported by get_params.",
     ["histories", "inputs"],
     "Every sequence of fit/transform/report calls on one object, over all estimators and configurations.",
     "Tests create a fresh object for every fit; state that leaks from one fit to the next is never exercised.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "uncertainty/binning_scenarios.py", B + "piecewise/base.py", B + "multidimensional/binning_2d.py", B + "mdlp.py", B + "binning_process.py"],
     [("per-fit state", B + "binning.py: _fit"), ("accumulators", B + "binning.py: _n_refinements, _flag_min_n_event_nonevent")],
     state=[("user_splits / user_splits_fixed", "constructor parameters reused by every fit", B + "binning.py")],
     observe=["get_params", "splits", "binning_table.build()"])

prop("B08", "Saved models behave like the originals",
     "A fitted model that is saved and loaded (pickle of any estimator, the save/load methods of binning process, sketch and scorecard, or the JSON export/import of the optimal binning classes) is equivalent to the original: same splits, same status, same table, same transform output for every input. "
     "Saving never alters the model, and every fitted model can be saved.",
     ["inputs", "configurations", "histories"],
     "Every fitted model: numerical and categorical variables, special-code groups, others group, user splits, all targets.",
     "Tests round-trip one numerical model and check only that nothing raises.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_process.py", "optbinning/scorecard/scorecard.py", B + "distributed/base.py"],
     [("JSON export/import", B + "binning.py: to_json, read_json"), ("pickle", B + "binning_process.py: save, load")],
     observe=["to_json/read_json", "save/load", "pickle"])

prop("B09", "A fit depends on the records, not on how they are presented",
     "Fitting any estimator on the same records in another order gives the same model: same status, splits and table, same transform output (convex and iterative solvers: up to their convergence). So does presenting the same values in another container or type: list, tuple, pandas Series or DataFrame whatever its index, strided array, nullable, boolean, small integer or float types, and category or string types for categorical variables. "
     "Measuring a numerical variable or a continuous target in another unit, moving the origin of a variable, and giving the categories or the classes other names in the same order give the same partition, expressed in that unit, origin or those names.",
     ["inputs", "configurations"],
     "Every dataset, every estimator and every presentation of the same values, including indices that are repeated or not sorted.",
     "Tests fit each estimator once, on plain float arrays or plain data frames.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "preprocessing.py", B + "prebinning.py", B + "mdlp.py", B + "binning_process.py", B + "multidimensional/preprocessing_2d.py", B + "piecewise/base.py"],
     [("cleaning", B + "preprocessing.py: split_data"), ("pre-bins", B + "prebinning.py"), ("MDLP", B + "mdlp.py")],
     observe=["fit", "splits", "binning_table.build", "transform"])

prop("C01", "Continuous-target binning honours constraints and is optimal",
     "For a continuous target, an OPTIMAL fit returns bins that satisfy every requested constraint (number of bins, bin sizes, monotonic trend of the bin means, minimum mean difference, maximum p-value of the t-test, fixed splits), and no other feasible merging of the same pre-bins attains a better objective (the sum over bins of the absolute deviation of the bin mean from the overall mean). "
     "If no feasible merging exists the fit reports INFEASIBLE with a single bin, and it never reports INFEASIBLE otherwise.",
     ["inputs", "configurations"],
     "Every dataset (positive, negative, small- and large-scale targets) and every constraint combination small enough to enumerate all mergings.",
     "The only tests of this module need a network data set and check a few stored splits.",
     [B + "continuous_binning.py", B + "continuous_cp.py", B + "model_data.py", B + "cp.py"],
     [("interval statistics", B + "model_data.py: continuous_model_data"), ("CP model", B + "continuous_cp.py")],
     observe=["ContinuousOptimalBinning.status", "splits"])

prop("C02", "Continuous-target table and transform equal a raw recount",
     "For a continuous target, every row of the binning table (count, sum, mean, standard deviation, min, max, zeros count, IV, WoE) and the totals equal the values recomputed from the raw training data by the displayed bins, categories, special codes and missing values, with every record in exactly one row. "
     "Transform returns the mean, index or label of the row containing the value; special codes, missing values and unknown categories follow the configured treatment.",
     ["inputs", "configurations"],
     "Every dataset with ties, missing, special groups, categories and sample weights, and every query value.",
     "No network-independent test exercises this class at all.",
     [B + "continuous_binning.py", B + "binning_statistics.py", B + "transformations.py"],
     [("pre-bin statistics", B + "continuous_binning.py: _compute_prebins"), ("table", B + "binning_statistics.py: ContinuousBinningTable.build"), ("transform", B + "transformations.py: transform_continuous_target")],
     observe=["binning_table.build()", "transform"])

prop("M01", "Multiclass binning honours constraints and is optimal",
     "For a multiclass target, an OPTIMAL fit satisfies every requested constraint (number of bins, bin sizes, the monotonic trend requested for each class's event rate, minimum event-rate difference, maximum p-value, fixed splits), and no other feasible merging of the same pre-bins attains a larger sum over classes of the one-versus-rest divergence. "
     "CP and MIP solvers agree on the optimal objective.",
     ["inputs", "configurations"],
     "Every dataset with three or more classes and every constraint combination small enough to enumerate.",
     "Tests check stored splits of the wine data set for a few option sets.",
     [B + "multiclass_binning.py", B + "multiclass_cp.py", B + "multiclass_mip.py", B + "model_data.py"],
     [("per-class objective", B + "model_data.py: multiclass_model_data"), ("constraints", B + "multiclass_cp.py, " + B + "multiclass_mip.py")],
     observe=["MulticlassOptimalBinning.status", "splits"])

prop("M02", "Multiclass table and transform equal a raw recount",
     "For a multiclass target, every row of the binning table shows exactly the per-class counts and event rates of the raw records falling in that bin, special code or missing group, with every record in exactly one row and totals adding up. "
     "Transform returns for each value the mean or weighted-mean one-versus-rest WoE of its row, or its index or label.",
     ["inputs", "configurations"],
     "Every dataset with any number of classes, labels in any order, missing and special values, every query value.",
     "Tests check a few stored numbers on one data set.",
     [B + "multiclass_binning.py", B + "binning_statistics.py", B + "transformations.py"],
     [("counts per class", B + "multiclass_binning.py: _compute_prebins"), ("transform", B + "transformations.py: transform_multiclass_target")],
     observe=["binning_table.build()", "transform"])

prop("P01", "A binning process equals its individual binnings",
     "A binning process produces, for every variable, exactly the binning that the individual class produces with the same parameters (defaults overridden by that variable's own parameters), and its transform equals the individual transforms column by column with each variable's own transform settings, never another variable's. "
     "Results do not depend on the number of jobs, the container (dataframe or array), the order of the variables or what the process was fitted on before.",
     ["inputs", "configurations", "schedules"],
     "Every table of mixed numerical/categorical variables, all target types, any per-variable fit/transform parameters, any n_jobs.",
     "Tests fit one data set sequentially and check shapes; leaks between variables need heterogeneous per-variable settings.",
     [B + "binning_process.py"],
     [("per-variable fit", B + "binning_process.py: _fit_variable"), ("column transform", B + "binning_process.py: _transform")],
     observe=["get_binned_variable", "transform", "summary"])

prop("P02", "Variable selection follows the stated criteria",
     "The variables a binning process selects are exactly those allowed by the selection criteria (min/max thresholds, strategy highest/lowest and top count or fraction) evaluated on the reported statistics, plus the fixed variables, in input order; without criteria all are selected, and the summary reports each variable's own statistics. "
     "Transform returns exactly the selected columns in the documented order.",
     ["inputs", "configurations"],
     "Every table and every criteria dictionary.",
     "Tests use one criteria dictionary on one data set.",
     [B + "binning_process.py"],
     [("selection", B + "binning_process.py: _binning_selection_criteria"), ("statistics", B + "binning_process.py: _stats, summary")],
     observe=["get_support", "summary", "transform"])

prop("P03", "Out-of-core processing equals in-memory processing",
     "Fitting and transforming a binning process from files on disk gives the same binnings, selection and transformed values as reading the same data into memory, for every chunk size and file format. "
     "No row is lost, duplicated or reordered.",
     ["inputs", "configurations"],
     "Every file (any number of rows relative to the chunk size), csv and parquet paths, all variable types.",
     "Tests transform one file with a chunk size and check nothing about the values.",
     [B + "binning_process.py"],
     [("chunked reading and writing", B + "binning_process.py: fit_disk, transform_disk, fit_transform_disk")],
     observe=["output file of transform_disk", "get_support"])

prop("R01", "Pre-binning respects its limits and user splits",
     "Pre-binning (cart, mdlp, quantile, uniform) yields strictly increasing splits inside the data range, at most the requested number of bins, and with cart every pre-bin holds at least the requested number of records; the final splits of a fit are always a subset of the pre-bin splits, and with user-supplied splits a subset of those. "
     "User splits give the same result whatever order they are supplied in, fixed splits are always kept, and split rounding yields splits with at most the requested digits.",
     ["inputs", "configurations"],
     "Every numerical vector (ties, constants, outliers, tiny samples), every method and limit.",
     "Tests run each method once on one variable.",
     [B + "prebinning.py", B + "mdlp.py", B + "binning.py"],
     [("methods", B + "prebinning.py: PreBinning.fit"), ("MDLP recursion", B + "mdlp.py: MDLP._recurse"), ("user splits", B + "binning.py: _fit, _prebinning_refinement")],
     observe=["PreBinning.splits", "OptimalBinning.splits"])

prop("R02", "Outlier filters remove exactly what they define",
     "The outlier detectors flag exactly the values outside the interval defined by their statistic (equal-tailed or highest-density range, modified z-score, either of them on the target within quantile bins) for every vector, and a fit with an outlier detector equals a fit on the data with exactly those records removed. "
     "Only clean records of numerical variables are ever removed: missing and special records are never treated as outliers, and lower/upper bounds given to the data splitting remove exactly the clean records outside them.",
     ["inputs", "configurations"],
     "Every numerical vector including heavy ties and constants, every detector and its parameters.",
     "The detector tests need a network data set and check one stored table.",
     [B + "outlier.py", B + "preprocessing.py"],
     [("detectors", B + "outlier.py"), ("use", B + "preprocessing.py: split_data")],
     observe=["get_support", "binning_table.build()"])

prop("S01", "Quantile sketches keep their error and count guarantees",
     "After any history of insertions and merges, a quantile sketch has the exact number of inserted values and every reported quantile has rank error at most the configured epsilon (Greenwald-Khanna), with minimum and maximum retained. "
     "Merging sketches is equivalent, within that error, to one sketch of the concatenated stream and leaves the merged-in sketch usable and unchanged.",
     ["histories", "inputs"],
     "Every stream (sorted, reversed, repeated values, random), every split of it over sketches, every merge tree and every compression point.",
     "Tests insert one random stream and compare loosely.",
     [B + "distributed/gk.py", B + "distributed/bsketch.py"],
     [("GK summary", B + "distributed/gk.py: GK.add, merge, _compress"), ("event/non-event sketches", B + "distributed/bsketch.py")],
     observe=["GK.n", "GK.quantile", "BSketch.bins"])

prop("S02", "Sketch binning conserves records over adds and merges",
     "After any history of adds and merges followed by solve, the binning sketch accounts for every record exactly once: total, missing, special and clean counts equal those of the whole stream, categorical bin counts are exact and numerical bin counts are within the sketch error, and the solution satisfies the requested constraints on the sketched counts. "
     "Merging partitions gives the same counts as one sketch of all data, in any merge order, and the merged-in sketch is not altered by later operations.",
     ["histories", "inputs"],
     "Every partition of a stream into add calls and sketches, every merge order, interleaved solves, numerical and categorical variables, missing and special codes.",
     "Tests add one data set in one go or merge two halves once.",
     [B + "distributed/binning_sketch.py", B + "distributed/bsketch.py", B + "distributed/binning_process_sketch.py"],
     [("sketch updates", B + "distributed/bsketch.py: BSketch.add/merge, BCatSketch.add/merge"), ("solve", B + "distributed/binning_sketch.py: solve")],
     observe=["OptimalBinningSketch.binning_table.build()", "n"])

prop("D01", "Two-dimensional bins tile the plane and count exactly",
     "The bins of a two-dimensional optimal binning are disjoint rectangles that cover the whole plane, and recounting the raw data by the displayed rectangles, special codes and missing values gives exactly each row's counts (or sums and means for a continuous target), each record in exactly one row. "
     "Transform returns for every pair of values the metric, index or label of the row containing it, including edges, special and missing values.",
     ["inputs", "configurations"],
     "Every dataset of two variables (numerical or categorical), every configuration, every query pair.",
     "Tests compare a few stored numbers; overlap, gaps and edge disagreement need adversarial points.",
     [B + "multidimensional/binning_2d.py", B + "multidimensional/continuous_binning_2d.py", B + "multidimensional/binning_statistics_2d.py", B + "multidimensional/transformations_2d.py", B + "multidimensional/preprocessing_2d.py"],
     [("rectangles", B + "multidimensional/model_data_2d.py"), ("tiling constraint", B + "multidimensional/cp_2d.py, mip_2d.py"), ("table", B + "multidimensional/binning_statistics_2d.py")],
     observe=["binning_table.build()", "transform"])

prop("D02", "Two-dimensional binning honours constraints and is optimal",
     "An OPTIMAL two-dimensional binning satisfies every requested constraint (number of bins, bin size, event/non-event counts, monotonic trends along each axis, minimum differences) and no other tiling of the same pre-bin grid by rectangles satisfying them attains a larger divergence (or sum of absolute mean deviations for a continuous target). "
     "CP and MIP solvers report the same optimal objective.",
     ["inputs", "configurations"],
     "Every dataset whose pre-bin grid is small enough to enumerate all rectangle tilings, every supported constraint combination.",
     "Tests compare stored results for one data set; optimality over all tilings is out of reach of examples.",
     [B + "multidimensional/model_data_2d.py", B + "multidimensional/cp_2d.py", B + "multidimensional/mip_2d.py", B + "multidimensional/binning_2d.py"],
     [("rectangle enumeration and objective", B + "multidimensional/model_data_2d.py"), ("optimisation models", B + "multidimensional/cp_2d.py, mip_2d.py")],
     observe=["OptimalBinning2D.status", "splits", "binning_table.build()"])

prop("U01", "Scenario-based binning is feasible and optimal in every scenario",
     "Stochastic optimal binning returns one set of splits that satisfies the requested constraints in every scenario, and no other merging of the same pre-bins that does so attains a larger weighted sum of the scenarios' IV. "
     "The table of each scenario and the aggregate table recount exactly that scenario's (or all scenarios') records, and transform agrees with the aggregate table.",
     ["inputs", "configurations"],
     "Every list of scenario samples, weights and constraints small enough to enumerate.",
     "Tests use three scenarios of one data set and stored splits.",
     [B + "uncertainty/binning_scenarios.py", B + "cp.py", B + "model_data.py"],
     [("scenario model", B + "cp.py: build_model_scenarios"), ("weights", B + "model_data.py"), ("tables", B + "uncertainty/binning_scenarios.py: binning_table_scenario")],
     observe=["SBOptimalBinning.splits", "binning_table_scenario", "binning_table"])

prop("W01", "Piecewise binning is one consistent bounded function",
     "A piecewise binning transforms each clean value by the polynomial displayed for its bin, within the requested lower/upper bounds, continuous across splits when continuity is requested, and monotone when a monotonic trend is requested; the table's counts equal a raw recount. "
     "Special and missing values receive the requested number or their own empirical value, and the WoE transform is the WoE of the event-rate transform. "
     "The analysis reports the performance of that function on the clean training records by the textbook formulas (divergences add every special and missing row once), and its tests, concentration and quality score follow from the displayed counts.",
     ["inputs", "configurations"],
     "Every dataset, degree, continuity, bounds and trend setting and every query value.",
     "Tests check a few table digits for one data set.",
     [B + "piecewise/base.py", B + "piecewise/binning.py", B + "piecewise/continuous_binning.py", B + "piecewise/transformations.py", B + "piecewise/binning_statistics.py"],
     [("fit", B + "piecewise/base.py: _fit"), ("transform", B + "piecewise/transformations.py")],
     observe=["transform", "binning_table.build()"])

prop("K01", "Scorecard scores equal the points of its displayed table",
     "For every record the score equals the sum over variables of the points displayed in the scorecard table for the row containing the record's value (plus the intercept), including special, missing and unseen values, for every scaling and rounding option. "
     "Scores are an affine function of the fitted estimator's linear predictor when no rounding is applied, so scores rank records exactly as the predicted probabilities do, and the predictions equal those of the estimator on the binned data.",
     ["inputs", "configurations"],
     "Every dataset, estimator (logistic or linear), scaling method, intercept and reverse option, and every query record.",
     "Tests check score ranges of one data set.",
     ["optbinning/scorecard/scorecard.py", B + "binning_process.py"],
     [("points", "optbinning/scorecard/scorecard.py: _compute_scorecard_points, _fit"), ("score", "optbinning/scorecard/scorecard.py: score, _transform")],
     observe=["Scorecard.score", "Scorecard.table", "predict_proba"])

prop("K02", "Scorecard scaling meets its calibration",
     "With PDO/odds scaling the score equals the requested scorecard points at the requested odds and changes by exactly PDO points when the odds double; with min/max scaling the minimum and maximum attainable scores are exactly the requested ones. "
     "With rounding all points are integers, each within the rounding tolerance of the unrounded points, and intercept-based tables have non-negative points whose intercept keeps every score unchanged.",
     ["inputs", "configurations"],
     "Every fitted scorecard and every scaling parameter set.",
     "Tests check two stored score ranges.",
     ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"],
     [("scaling", "optbinning/scorecard/scorecard.py: _compute_scorecard_points"), ("rounding", "optbinning/scorecard/rounding.py")],
     observe=["Scorecard.table", "Scorecard.score"])

prop("K03", "Monitoring reports exactly the drift of the two samples",
     "The monitoring report's PSI tables (score and variables), event counts, significance tests and performance statistics equal the values recomputed from the actual and expected samples through the scorecard, with every record of each sample in exactly one bin. "
     "PSI is non-negative, zero for identical samples, and each variable's PSI uses the proportions of each of that variable's own rows including special and missing.",
     ["inputs", "configurations"],
     "Every pair of actual/expected samples with missing and special values and drift of any kind, and every PSI binning option.",
     "Tests check one pair of samples for a few digits.",
     ["optbinning/scorecard/monitoring.py", B + "metrics.py", "optbinning/metrics/classification.py", "optbinning/metrics/regression.py"],
     [("score PSI", "optbinning/scorecard/monitoring.py: _fit_system_stability"), ("variables PSI", "optbinning/scorecard/monitoring.py: _fit_variables"), ("tests", "optbinning/scorecard/monitoring.py: _fit_tests")],
     observe=["psi_table", "psi_variable_table", "tests_table", "system_stability_report"])

prop("X01", "Counterfactuals are valid and optimal",
     "Every counterfactual returned as OPTIMAL really obtains the requested outcome from the scorecard's own prediction, changes only actionable features, at most the allowed number of them, and its displayed bins correspond to the predicted values; diverse counterfactuals are mutually different as requested. "
     "No other assignment of bins satisfying the same constraints has a smaller objective, and INFEASIBLE is reported only when no assignment exists.",
     ["inputs", "configurations"],
     "Every scorecard small enough to enumerate, every query and every combination of objectives, hard constraints, actionable features and diversity constraints.",
     "The counterfactual tests need a network data set and only check statuses.",
     ["optbinning/scorecard/counterfactual/counterfactual.py", "optbinning/scorecard/counterfactual/mip.py", "optbinning/scorecard/counterfactual/multi_mip.py", "optbinning/scorecard/counterfactual/problem_data.py"],
     [("optimisation model", "optbinning/scorecard/counterfactual/mip.py, multi_mip.py"), ("decoding", "optbinning/scorecard/counterfactual/counterfactual.py: _get_counterfactual")],
     observe=["Counterfactual.status", "Counterfactual.display"])

prop("T01", "Performance metrics equal their definitions",
     "For any labels and scores, the Gini index, the Kolmogorov-Smirnov statistic, the imbalanced classification metrics and the regression metrics equal the values given by their mathematical definitions on the empirical distributions of events and non-events (or targets and predictions), and the divergence, concentration and significance functions equal theirs; the performance plots display those values. "
     "The metrics do not depend on the order of the records, stay within their theoretical range and neither modify their inputs nor the global random state.",
     ["inputs"],
     "Every pair of label/score vectors, including ties, constant scores and very small samples.",
     "Tests check stored values for one model.",
     ["optbinning/metrics/classification.py", "optbinning/metrics/regression.py", B + "metrics.py", "optbinning/scorecard/plots.py"],
     [("classification", "optbinning/metrics/classification.py"), ("regression", "optbinning/metrics/regression.py")],
     observe=["gini", "ks", "frequency tables"])

prop("V01", "Plots show exactly the values of the fitted object",
     "Every chart draws the numbers the object itself reports: the bars of a binning table plot have the heights (counts per class, or counts and means) of the table's rows in row order, the line passes through the chosen metric (event rate, WoE or mean) of those rows, the rows for special and missing are present exactly when requested with their own labels and values, and actual-width plots place each bin at its split points. "
     "Two-dimensional maps show each cell's value, PSI plots show the proportions and event rates of the report, sketch progress plots show the recorded history; drawing changes neither the object nor its table.",
     ["inputs", "configurations"],
     "Every fitted object with a plot and every metric, special/missing, label and style option.",
     "Tests compare one stored image per method, with a large tolerance.",
     [B + "binning_statistics.py", B + "multidimensional/binning_statistics_2d.py", B + "piecewise/binning_statistics.py", B + "distributed/plots.py", "optbinning/scorecard/monitoring.py"],
     [("1D plots", B + "binning_statistics.py: BinningTable.plot, MulticlassBinningTable.plot, ContinuousBinningTable.plot"), ("2D plots", B + "multidimensional/binning_statistics_2d.py: plot"), ("PSI plot", "optbinning/scorecard/monitoring.py: psi_plot")],
     observe=["plot", "psi_plot", "plot_progress"])

prop("E01", "Invalid use is rejected and leaves nothing behind",
     "Every parameter or argument outside its documented domain (wrong type, value outside the stated range, unknown option, contradictory pair such as minimum above maximum, mismatched lengths of inputs) is rejected with ValueError or TypeError when the object is fitted or the method is called, for every class of the library; every value inside the domain, including its end points, is accepted. "
     "Methods and attributes that need a fitted, solved, built, analysed or generated object raise the corresponding not-fitted error before that, and after a rejection an unfitted object is still unfitted while an object fitted earlier gives exactly the results it gave before; the same after a model file that cannot be read.",
     ["inputs", "configurations", "histories"],
     "Every class, every parameter and method argument, every value outside or at the end of its domain, on fresh and on used objects.",
     "Tests try one invalid value per parameter on fresh objects and never look at the state that remains.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "piecewise/base.py", B + "uncertainty/binning_scenarios.py", B + "multidimensional/binning_2d.py", B + "multidimensional/continuous_binning_2d.py", B + "distributed/binning_sketch.py", B + "distributed/binning_process_sketch.py", B + "binning_process.py", B + "binning_statistics.py", B + "transformations.py", "optbinning/scorecard/scorecard.py", "optbinning/scorecard/monitoring.py", "optbinning/scorecard/counterfactual/counterfactual.py"],
     [("parameter domains", "each module: _check_parameters"), ("order of use", B + "base.py: Base._check_is_fitted; " + B + "binning_statistics.py: _check_is_built, _check_is_analyzed"), ("transform arguments", B + "transformations.py: _check_metric_special_missing, _check_show_digits")],
     observe=["fit", "transform", "binning_table", "generate"])

prop("I01", "Reports and logs tell the truth and change nothing",
     "The information printed about any fitted, solved or generated object states its own name and status, every constructor option with its value and flagged as the user's exactly when it differs from the default, the true numbers of records, variables, types and selected variables, pre-bins and streaming operations, the solver's own statistics (also when the solver is another than the default), and times whose phases lie where the time was spent, add up to no more than the total and to the stated percentages. "
     "Asking for a report at any level, any number of times, changes neither the object nor the next report; bins read from a file are reported with their own name and status and nothing of an earlier fit; verbose mode gives exactly the results of silent mode and logs the true counts, trends and status, and silent mode prints and logs nothing.",
     ["inputs", "configurations", "histories"],
     "Every class with an information method, every configuration, solver, level and history of adds, solves, merges and fits, wherever the time is spent.",
     "Tests call information once per level and look at nothing it prints; verbose runs are never compared with silent ones.",
     ["optbinning/information.py", "optbinning/options.py", B + "binning_information.py", B + "binning_process_information.py", B + "distributed/bsketch_information.py", B + "distributed/binning_process_sketch_information.py", B + "piecewise/binning_information.py", "optbinning/scorecard/scorecard_information.py", "optbinning/scorecard/monitoring_information.py", "optbinning/scorecard/counterfactual/counterfactual_information.py"],
     [("options", "optbinning/information.py: print_optional_parameters; optbinning/options.py"), ("solver statistics", "optbinning/information.py: solver_statistics, print_solver_statistics"), ("times and counts", "each module: information, verbose messages of fit")],
     observe=["information", "verbose logs"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    print(len(P))
