"""Writes properties.jsonl and MANIFEST.json from the table below.

A property is claimed when its check module exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "optbinning/binning/"
S = "optbinning/scorecard/"
TESTS = "The tests fit a few fixed public data sets with default-like options and compare a few numbers; "


def P(pid, title, st, over, text, why, files, mech, note):
    return dict(pid=pid, title=title, st=st, over=over, text=text, why=why,
                files=files, mech=mech, note=note)


PROPS = [
P("C01", "Numerical records are routed to the bin whose interval contains them",
  "For a fitted binning with split points s1<...<sk every finite value is assigned to the interval [s_i, s_{i+1}) that contains it, special codes are assigned to their own special bin and missing values to the missing bin. Intervals cover the real line without overlap and a value equal to a split belongs to the interval on its right. Binary, continuous, multiclass and uncertainty-aware binnings agree on this rule.",
  ["inputs", "configurations"],
  "every value of the variable and every position of the split points (up to 4 bins), special codes as list, array and dictionary, missing shown or not",
  TESTS + "no test varies the position of a value relative to the splits, ties with a split or with a special code.",
  [B + "transformations.py", B + "preprocessing.py"],
  [("record routing by split points", B + "transformations.py"), ("special and missing masks", B + "transformations.py")],
  "Values and split points are symbolic reals; all branches of the transform code are explored and decided by z3."),
P("C02", "Categorical records get the value of the bin listing their category",
  "The bins of a fitted categorical binning form a partition of the training categories into runs of the target-rate order, with rare or unlisted categories grouped last. Each category is transformed to the value of the bin that lists it; special codes and missing values have their own bins. A category never seen in training gets the configured unknown value, or the overall rate, zero evidence, -1 or 'unknown' by default.",
  ["inputs", "configurations"],
  "every weighting of the records of up to 6 categories, with and without user groups, rare-category cutoff, special codes and unknown value",
  TESTS + "unknown categories, cutoffs and dictionaries of special codes appear in at most one example each.",
  [B + "transformations.py", B + "preprocessing.py", B + "binning.py", B + "prebinning.py"],
  [("category grouping", B + "preprocessing.py"), ("unknown value rule", B + "transformations.py"), ("categorical splits", B + "binning_statistics.py")],
  "Weights (and the target for continuous) are symbolic; the categories and their order are concrete."),
P("C03", "Transformed values equal the corresponding row of the binning table",
  "The value a fitted binning assigns to a record (WoE, event rate, mean, weighted multiclass WoE, index or label) equals the value the binning table reports for the row of that record's bin. Special and missing records get either the requested constant or the empirical value of their row.",
  ["inputs", "configurations"],
  "every assignment of integer record counts up to the stated bound to 3 bins plus special and missing, every target type and metric",
  TESTS + "the two independent computations (table and transform) are never compared on general counts, in particular for pure, empty, special and missing bins.",
  [B + "transformations.py", B + "binning_statistics.py"],
  [("transform values", B + "transformations.py"), ("table values", B + "binning_statistics.py")],
  "Counts are symbolic, logs are handled by exact lemmas; both computations run on the same symbolic fit."),
P("C04", "Binning table counts are a tally of the training records",
  "In the binning table of a fitted variable the counts, events, non-events, per-class counts, target sums, extremes and standard deviations of each row equal the tally over the training records that the same binning routes to that row, weighted by the sample weights. The rows add up to the totals, so no training record is lost or counted twice.",
  ["inputs", "configurations"],
  "every training sample of a few records with arbitrary values, targets and weights, with special, missing and both-special-and-missing records, all target types and refinements",
  TESTS + "totals of one data set are compared with stored numbers; conservation under special codes, missing values, weights, outliers and pure prebin refinement is not asserted.",
  [B + "preprocessing.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_statistics.py"],
  [("split of the data into clean, special, missing", B + "preprocessing.py"), ("prebin refinement and counts", B + "binning.py"), ("table construction", B + "binning_statistics.py")],
  "Record values, targets and weights are symbolic; the fit, the transform and the table run symbolically."),
P("C05", "Optimal binary bins satisfy every requested constraint",
  "When a binary binning reports an optimal or feasible solution, its bins merge consecutive prebins and satisfy every requested constraint: number of bins, bin sizes, events and non-events per bin, monotonic trend, minimum event rate difference, maximum p-value and fixed splits. This holds for both optimisation engines.",
  ["inputs", "configurations"],
  "every solution of the generated optimisation model and all prebin counts within bounds, for all constraint kinds and trends, 4 to 6 prebins",
  TESTS + "the tests check the status string and stored split points, not that the constraints hold for other data.",
  [B + "cp.py", B + "mip.py", B + "model_data.py", B + "binning.py"],
  [("constraint-programming model", B + "cp.py"), ("integer-programming model", B + "mip.py"), ("aggregates of merged prebins", B + "model_data.py")],
  "The solver stand-in collects the real model's constraints; any satisfying solution for any counts is considered."),
P("C06", "Binary optimisation excludes no admissible binning and maximises divergence",
  "Every merging of consecutive prebins that satisfies the requested constraints is a feasible solution of the optimisation, with objective equal to its divergence (IV, JS, Hellinger, triangular). Hence an optimal status means no admissible binning has a larger divergence, up to the solver's rounding, and an infeasible status means none exists.",
  ["inputs", "configurations"],
  "every admissible binning and all prebin counts within bounds, for every constraint kind, trend and divergence, 4 to 5 prebins",
  TESTS + "tests cannot tell an optimal solution from a merely feasible one on other data.",
  [B + "cp.py", B + "mip.py", B + "model_data.py", B + "binning.py", B + "auto_monotonic.py"],
  [("constraint-programming model", B + "cp.py"), ("integer-programming model", B + "mip.py"), ("objective coefficients", B + "model_data.py"), ("trend preprocessing", B + "binning.py")],
  "For every partition and symbolic counts, z3 shows that the model admits it with the right objective."),
P("C07", "Continuous, multiclass and scenario optima are admissible and complete",
  "Optimal bins of continuous, multiclass and scenario-based binnings satisfy the requested size, trend, mean-difference and p-value constraints. Every admissible merging of consecutive prebins is feasible in the optimisation with the objective the problem defines.",
  ["inputs", "configurations"],
  "every solution and all prebin statistics within bounds, 3 to 4 prebins, up to 3 classes or 2 scenarios",
  TESTS + "the continuous tests need a data set that is not available offline, the others check a few stored splits.",
  [B + "continuous_cp.py", B + "multiclass_cp.py", B + "multiclass_mip.py", B + "uncertainty/binning_scenarios.py", B + "model_data.py"],
  [("continuous model", B + "continuous_cp.py"), ("multiclass models", B + "multiclass_cp.py"), ("scenario model", B + "uncertainty/binning_scenarios.py")],
  "Same method as C05/C06 for the other optimisation models."),
P("C08", "Two-dimensional bins partition the grid, respect constraints and route records",
  "The optimal bins of a 2D binning are disjoint rectangles of the pregrid covering it, satisfy the requested size and trend constraints, and no admissible covering is excluded. Table counts of each rectangle are the tally of its records, and transform gives each pair of values the value of the rectangle that contains it.",
  ["inputs", "configurations"],
  "every solution of the generated model over grids up to 3x3, all counts within bounds, every position of a record",
  TESTS + "2D tests run on data that is not available offline or compare a stored status.",
  [B + "multidimensional/binning_2d.py", B + "multidimensional/cp_2d.py", B + "multidimensional/mip_2d.py", B + "multidimensional/model_data_2d.py", B + "multidimensional/transformations_2d.py"],
  [("rectangle enumeration and connectivity", B + "multidimensional/model_data_2d.py"), ("2D models", B + "multidimensional/mip_2d.py"), ("2D routing", B + "multidimensional/transformations_2d.py")],
  "Grid counts are symbolic; the real model construction is encoded."),
P("C10", "Binning table columns follow their definitions from the counts",
  "Given the counts of each bin, the table's percentages, event rates, WoE, IV, JS, means, deviations, zeros, min, max and totals are the values their definitions give, for binary, continuous, multiclass and 2D tables. Totals equal sums over rows, and hiding columns, special or missing rows changes nothing else.",
  ["inputs", "configurations"],
  "every integer assignment of counts (including zeros) and real sums within bounds, up to 4 bins plus special and missing",
  TESTS + "a few numbers of one table are compared with stored values; bins without events, empty special and missing bins are rare there.",
  [B + "binning_statistics.py", B + "multidimensional/binning_statistics_2d.py"],
  [("binary table", B + "binning_statistics.py"), ("continuous and multiclass tables", B + "binning_statistics.py"), ("2D tables", B + "multidimensional/binning_statistics_2d.py")],
  "Counts are symbolic; the table code is executed symbolically and compared with definitions."),
P("C11", "Divergence and concentration metrics equal their definitions",
  "The quality metrics of a binning (IV, Jensen-Shannon, Gini, Hellinger, triangular, KS, HHI, quality score and Cramer-type statistics) equal their definitions for any event and non-event counts. They are non-negative, bounded as documented, zero when the classes are distributed equally, and invariant to the order of the bins or to swapping the classes where symmetric.",
  ["inputs"],
  "every vector of event and non-event counts up to 4 bins within bounds, including zero counts",
  TESTS + "metric values are compared with stored numbers for one data set.",
  [B + "metrics.py", B + "binning_statistics.py"],
  [("divergence metrics", B + "metrics.py"), ("table analysis", B + "binning_statistics.py")],
  "Counts are symbolic rationals; definitions are compared term by term with z3."),
P("C12", "Scorecard points scaling satisfies its defining equations",
  "For every model and data, the min-max scaling maps the smallest and largest attainable scores to the requested limits and is affine and order reversing or preserving as requested; the PDO/odds scaling gives the requested score at the requested odds and adds PDO points per doubling of odds. With the intercept-based option the smallest points of every variable are zero, their sum is moved into the intercept, and every score is unchanged.",
  ["inputs", "configurations"],
  "every coefficient, bin value and intercept for up to 3 variables with up to 3 bins, every scaling method and its options",
  TESTS + "only stored scores for one data set are compared.",
  [S + "scorecard.py"], [("points computation", S + "scorecard.py")],
  "Coefficients, intercept and bin values are symbolic reals."),
P("C13", "A score is the sum of the points of the record's bins",
  "The score of a record is the sum over the scorecard variables of the points listed for its bin, including special and missing bins, plus the intercept if not spread. Predicted probabilities equal those of the underlying model on the transformed record, and rounded points are integers close to the unrounded points; with the min-max scaling every rounded score stays within the score limits.",
  ["inputs", "configurations"],
  "every record, coefficient and bin value for up to 3 variables, all scaling and rounding options",
  TESTS + "only the first scores of a data set are compared with stored numbers.",
  [S + "scorecard.py", S + "rounding.py"], [("score computation", S + "scorecard.py"), ("rounding model", S + "rounding.py")],
  "Coefficients and values symbolic; the rounding optimisation model is encoded."),
P("C14", "Counterfactuals reach the required outcome under their constraints",
  "Every counterfactual returned as optimal or feasible assigns each variable to one of its bins, keeps non-actionable variables unchanged, changes at most the allowed number of variables, and satisfies the requested outcome and hard constraints. The reported outcome is the model's outcome for that assignment, and the objective equals the requested combination of proximity and closeness.",
  ["inputs", "configurations"],
  "every solution of the generated model, every coefficient and bin value for up to 3 variables with up to 3 bins, binary and continuous outcomes (not the piecewise probability outcome), all constraints",
  "The counterfactual tests need a data set that is not available offline; nothing checks returned counterfactuals for other data.",
  [S + "counterfactual/counterfactual.py", S + "counterfactual/mip.py", S + "counterfactual/model_data.py", S + "counterfactual/problem_data.py"],
  [("counterfactual model", S + "counterfactual/mip.py"), ("multiple counterfactuals", S + "counterfactual/multi_mip.py")],
  "The real model construction is encoded and any of its solutions is considered."),
P("C15", "Trend detection and trend predicates are correct",
  "A sequence of rates is classified as ascending, descending, peak, valley, concave or convex only if it has that shape, and the automatically selected trend is one of those allowed by the option. Automatically detected change points split the sequence where its direction changes.",
  ["inputs"],
  "every sequence of up to 5 real numbers",
  TESTS + "trends of a handful of stored bins are compared.",
  [B + "auto_monotonic.py", B + "metrics.py", B + "binning.py"],
  [("type of monotonic trend", B + "auto_monotonic.py"), ("peak and valley detection", B + "auto_monotonic.py")],
  "Sequences are symbolic reals; all branches explored."),
P("C16", "Binning sketches keep exact counts under any order of adds and merges",
  "After any history of adds and merges, a binning sketch holds exactly the counts of events and non-events (and special and missing records) of the data it received, merging leaves its argument unchanged, and merging is equivalent to adding the data. Quantile summaries respect their rank error bound. After solving, the table counts the records of the bin that the transform gives them, every bin has both classes unless there is one, and each variable of a process sketch uses its own parameters.",
  ["histories", "inputs"],
  "the listed histories of adds and merges of up to 3 sketches with 3 or 4 records of any value and target; any category counts; quantile summaries of 4 any records (6 thorough), and of 7 to 30 records of which the last 2 or 3 are any",
  TESTS + "merging is tested on one random split of one data set.",
  [B + "distributed/bsketch.py", B + "distributed/gk.py", B + "distributed/binning_sketch.py", B + "distributed/base.py"],
  [("numerical sketch", B + "distributed/bsketch.py"), ("categorical sketch", B + "distributed/bsketch.py"), ("quantile summary", B + "distributed/gk.py")],
  "Record values are symbolic; histories are enumerated by branching in the solver-driven exploration."),
P("C17", "The binning process selects and transforms each variable independently",
  "A binning process selects exactly the variables meeting the requested criteria (bounds, ranking, top number or fraction) and fixed variables. The transformed column of each variable equals what its own binning gives with its own parameters, independently of the other variables and of their order.",
  ["inputs", "configurations"],
  "every value of the quality metrics of up to 4 variables and every criterion, with per-variable options",
  TESTS + "selection is checked for one data set with two criteria.",
  [B + "binning_process.py"], [("selection", B + "binning_process.py"), ("per-variable parameters", B + "binning_process.py")],
  "Metric values and thresholds symbolic."),
P("C18", "Scorecard monitoring reports population stability by its definition",
  "The population stability index of a score is the sum over score bins of (actual share - expected share) times the log ratio of the shares, with every record counted in exactly one bin and the last interval closed. Per-variable tables count the records of each sample in the bins of that variable. The target and significance tables report the event rates, means and tests of the records of each bin.",
  ["inputs"],
  "every score and share for up to 3 bins and 4 records per sample",
  TESTS + "one stored PSI value is compared.",
  [S + "monitoring.py"], [("PSI", S + "monitoring.py"), ("binning of scores", S + "monitoring.py")],
  "Scores are symbolic reals."),
P("C19", "Classification and regression metrics equal their definitions",
  "Gini, Kolmogorov-Smirnov, the metrics derived from the confusion matrix and the regression metrics (mean, median, squared and percentage errors) equal their definitions for any sample, including samples with tied scores. Gini and KS do not depend on the order of records, and the KS and CAP plots draw the cumulative shares of events and non-events.",
  ["inputs"],
  "every sample of up to 4 records",
  TESTS + "metrics are evaluated on one stored sample.",
  ["optbinning/metrics/classification.py", "optbinning/metrics/regression.py"],
  [("classification metrics", "optbinning/metrics/classification.py"), ("regression metrics", "optbinning/metrics/regression.py")],
  "Scores and targets symbolic."),
P("C20", "Outlier detectors flag records outside their documented limits",
  "The range and modified-z detectors flag exactly the values outside the limits their definitions give, never flag a value strictly between two unflagged values, and removing flagged values leaves the rest untouched.",
  ["inputs", "configurations"],
  "every sample of up to 5 values and threshold",
  "Outlier tests only run on data that is not available offline.",
  [B + "outlier.py", B + "preprocessing.py"], [("detectors", B + "outlier.py"), ("outlier removal", B + "preprocessing.py")],
  "Sample values symbolic."),
P("C21", "Piecewise transforms evaluate the fitted segment and respect bounds",
  "A fitted piecewise binning transforms each value with the polynomial of the segment containing it, clips to the requested bounds, and gives special and missing values their configured or empirical value. Reported segment coefficients are those used by the transform, the table counts the records of every segment, and its analysis compares consecutive segments.",
  ["inputs", "configurations"],
  "every value and coefficient for up to 3 segments with given splits, degree up to 3, any class and kind of up to 2 special or missing training records (4 in the thorough tier)",
  "The continuous piecewise tests need a data set that is not available offline; others compare a few stored numbers.",
  [B + "piecewise/transformations.py", B + "piecewise/base.py", B + "piecewise/binning.py"],
  [("segment evaluation", B + "piecewise/transformations.py")],
  "Coefficients and values symbolic; the regression of ropwr is replaced by a stand-in giving arbitrary coefficients."),
P("C22", "Refinement merges degenerate prebins without losing records",
  "Refining the initial split points (removing bins without events or non-events, rounding splits, removing duplicates) leaves strictly increasing splits that are a subset of the rounded candidates, bins that contain both classes whenever more than one bin remains, and counts that add up to the same totals. Refitting an object gives the same result as fitting a new one.",
  ["inputs", "histories"],
  "every sample of a few weighted records and candidate splits",
  TESTS + "refinement is reached by few data sets; refits are not tested.",
  [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
  [("prebin refinement", B + "binning.py")],
  "Record values and weights symbolic."),
P("C23", "Invalid parameters are rejected and valid ones accepted",
  "Every constructor rejects exactly the parameter values outside their documented domain with a value or type error before any computation. Valid parameters are accepted and stored unchanged by fitting.",
  ["inputs", "configurations"],
  "every numeric value of each bounded parameter, and pairs of dependent parameters",
  TESTS + "each parameter is tried with one invalid value.",
  [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", S + "scorecard.py"],
  [("parameter validation", B + "binning.py")],
  "Parameter values symbolic numbers."),
]

NA = [
P("C90", "External solvers return optimal solutions of the models they are given",
  "The mathematical optimisation engines return a feasible solution of the generated model with the reported status.",
  ["inputs"], "every generated model", "Third-party binaries, not part of this repository.",
  [B + "cp.py", B + "mip.py"], [("call of the engine", B + "cp.py")],
  "OR-Tools and LocalSolver are third-party compiled code outside this repository (LocalSolver is not installed); the models given to them are checked in C05-C08, C13, C14, their search is not encodable."),
P("C91", "Prebinning algorithms produce the documented initial split points",
  "The initial split points produced for a variable are those of the documented algorithm (decision tree, quantile, uniform, minimum description length).",
  ["inputs"], "every sample", "The algorithms are third-party (scikit-learn); tests see one data set.",
  [B + "prebinning.py"], [("prebinning", B + "prebinning.py")],
  "The algorithms are compiled scikit-learn code; checks replace them by arbitrary split points, so every result they can give within the bounds is considered."),
P("C92", "Piecewise regression finds the least-error polynomial per segment",
  "The fitted piecewise polynomial minimises the requested regression objective under continuity and monotonic constraints.",
  ["inputs"], "every sample", "Third-party optimisation (ropwr, cvxpy).",
  [B + "piecewise/base.py"], [("call of the regression", B + "piecewise/base.py")],
  "The regression is solved by the third-party packages ropwr/cvxpy with compiled conic solvers; only the evaluation of the result is encodable (C21)."),
]


def line(p):
    return dict(id=p["pid"], title=p["title"], statement=p["st"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[
                    dict(name=n, where=w) for n, w in p["mech"]]))


def main():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(
        ROOT, "checks", p["pid"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in claimed + NA:
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps(line(p)) + "\n")
    man = dict(
        version=1, setup_cmd="./setup.sh",
        checks=[dict(
            property=p["pid"],
            quick_cmd="./check.sh {} quick".format(p["pid"]),
            thorough_cmd="./check.sh {} thorough".format(p["pid"]),
            technique="symbolic execution of the real Python code with z3",
            level="model_checking", level_note=p["note"] +
            " Bounds per harness are in the evidence file; floats are exact "
            "reals; counterexamples are replayed on the real code.")
            for p in claimed],
        not_applicable=[dict(property=p["pid"], reason=p["note"])
                        for p in NA])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
