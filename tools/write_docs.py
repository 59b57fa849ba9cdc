"""Writes properties.jsonl and MANIFEST.json; run by hand when the list of properties changes."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLF, REG, CORE, BOOT, CURVE, SPLIT, SCI, UTIL = ["mlpaper/%s.py" % f for f in (
    "classification", "regression", "mlpaper", "boot_util", "perf_curves", "data_splitter", "sciprint", "util")]


def P(pid, title, statement, over, text, why, files, mech, level_note=None, na=None):
    assert len(title) <= 80, title
    return dict(pid=pid, level_note=level_note, na=na, rec=dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))


PROPS = [
    P("C01", "A checkpoint directory never changes the answer",
      "Training and testing methods with a checkpoint directory returns exactly the predictions that the same call returns without "
      "one, or raises the error that a disk fault caused; it never returns other numbers. This holds whatever earlier runs, also "
      "runs on other data, other estimators or another task, left in the directory, and however they ended. After faults stop, the "
      "next call succeeds, unless a power loss tore the store's own bookkeeping.",
      ["histories", "crash_points", "fault_sequences", "schedules"],
      "all sequences of train/test calls from successive or concurrent processes on shared directories; all crash points and disk "
      "faults (errors, full disk, short, torn, lost writes, power loss) at any file operation",
      "The tests never pass a checkpoint directory at all; no test restarts, crashes or shares one.",
      [CLF, REG], [("memoised train and predict", CLF + ":get_pred_log_prob"), ("memoised train and predict", REG + ":get_gauss_pred")],
      "Seeded search over crash and fault histories of the real joblib store; trusts the disk fault layer, which injects at the "
      "numbered file operations of the process."),
    P("C02", "Finished train/test work is never repeated",
      "With a checkpoint directory, once an estimator has been trained and has predicted on given data, no later call on the same "
      "data and directory trains an equal estimator again, in the same or in a restarted process. Renaming, reordering, adding or "
      "dropping methods, and changing the floor on probabilities or deviations, does not change this; without a directory every call "
      "trains every method.",
      ["histories", "crash_points"],
      "all sequences of process runs, each killed at any file operation, with the method set and options edited in between",
      "No test counts fits across calls or restarts, and a test could only kill at points it knows.",
      [CLF, REG], [("what is part of the cache key", CLF + ":get_pred_log_prob.train_predict"),
                   ("floor applied outside the cached function", REG + ":get_gauss_pred")],
      "Seeded search; counts fits made by instrumented estimators against a model of finished work. Process crash only: what was "
      "written survives."),
    P("C03", "A failed or interrupted train/test never counts as done",
      "When an estimator raises or is interrupted while training or predicting, the benchmark call ends with that error, and a retry "
      "gives the answer of a run in which nothing failed; methods that had finished before the failure keep their checkpoints. "
      "An interrupt is never taken for a missing feature of the estimator.",
      ["fault_sequences", "histories"],
      "all positions of an exception or interrupt in fit and predict calls of any method, with and without checkpoints, followed by "
      "retries with the same or new objects or process",
      "Tests use estimators that never fail.",
      [CLF, REG], [("fallback on missing predict_log_proba / return_std", CLF + ":get_pred_log_prob.train_predict"),
                   ("fallback", REG + ":get_gauss_pred.train_predict")],
      "Seeded search over exception positions and kinds in the party interface."),
    P("C04", "A method is scored on the distribution it reported, or not at all",
      "Each method's row of predictions and scores depends only on what that method reported for that test point, normalised and "
      "floored as asked, whatever the other methods are or do. A report that is not a distribution over the labels (NaN, wrong shape, "
      "impossible row, non-positive or NaN deviation) is never turned into a finite score; the call fails or the score is not finite.",
      ["fault_sequences", "inputs", "histories"],
      "all sets of estimators, including ones that return unnormalised, extreme, oddly typed, shared or later overwritten buffers, or "
      "garbage",
      "The tests feed well-formed random tables to single functions; no test has an estimator that misbehaves.",
      [CLF, REG, UTIL], [("normalisation and floor", CLF + ":get_pred_log_prob"), ("input checks", CLF + ":loss_table"),
                         ("floor on std", REG + ":get_gauss_pred")],
      "Seeded search over Byzantine estimators; scores recomputed by a scalar reference model."),
    P("C05", "Concurrent callers do not disturb each other",
      "Calls made at the same time from several threads, also on shared input tables and under thread-local settings of decimal and "
      "numpy, each return what they return alone, and leave shared inputs unchanged. What a randomised call returns may depend on how "
      "draws interleave, but never on anything else of the other calls.",
      ["schedules"],
      "all interleavings, at the granularity of library lines or bytecodes and estimator calls, of two to four threads with one to "
      "three calls each over the whole API",
      "No test runs two threads.",
      [CLF, REG, CORE, BOOT, CURVE, SPLIT, SCI, UTIL], [("local decimal context", SCI + ":create_decimal"),
                                                       ("function-local state throughout", CLF)],
      "Seeded preemption of real threads released one at a time; third-party calls are atomic."),
    P("C06", "A call leaves nothing behind but its result, however it ends",
      "After any call, whether it returns, raises or is interrupted, process-wide state (decimal context, numpy error and print state, "
      "pandas options, warning filters, library constants and default arguments), the caller's inputs and earlier results are as "
      "before; only numpy's global generator may have advanced, and only in randomised calls. The same call made again gives what it "
      "gives in a fresh process.",
      ["fault_sequences", "histories", "configurations"],
      "all sessions of calls over the whole API, with an interrupt, exception or allocation failure at any library line or party call",
      "Tests check return values of calls that succeed, not what is left behind by calls that fail half way.",
      [CLF, REG, CORE, BOOT, CURVE, SPLIT, SCI, UTIL], [("copies before modification", SCI + ":format_table"),
                                                       ("local contexts", SCI + ":create_decimal"), ("working copies", SPLIT)],
      "Seeded search over fault positions; state snapshots compared around every call."),
    P("C07", "The same seed gives the same results, whatever else happened",
      "After seeding numpy's global generator, the same calls give the same results in any process: earlier calls, failed calls, the "
      "time, OS entropy, hash seed, thread, Python's own generator and ambient settings make no difference. Calls documented as "
      "deterministic neither draw from the generator nor advance it, and randomised calls do depend on the seed and never reuse the draws of an earlier call.",
      ["histories", "configurations"],
      "all sessions of calls over the whole API, all histories before them and all process environments",
      "Tests seed once per test and compare a handful of outputs with themselves, never across environments or histories.",
      [BOOT, CORE, CLF, CURVE, SPLIT, UTIL], [("global numpy generator only", BOOT + ":boot_weights"),
                                              ("drawing", SPLIT + ":rand_subset"), ("drawing", UTIL + ":epsilon_noise")],
      "Seeded search; every environment input goes through a seam and is varied between the two executions."),
    P("C08", "Every split is a legal, grouped, correctly sized partition, on any draw",
      "Splitting a data frame yields train, test and unused parts that together are exactly the input rows, unchanged and in order, "
      "each once. Train rows are inside the train side for every column criterion and test rows outside for every one; a random "
      "criterion puts whole groups of equal values on one side and takes ceil(frac * groups) of them; an ordered one never lets train "
      "reach past the test side and has the asked size; a linear one splits at the asked share of the range.",
      ["inputs", "schedules", "histories"],
      "all frames, indexes, split dictionaries and fractions, and every outcome of the random stream, including rare ones",
      "The tests draw a few frames from a fixed family with one natural random stream each.",
      [SPLIT], [("choice of random groups", SPLIT + ":rand_subset"), ("masks", SPLIT + ":rand_mask, ordered_split_mask, linear_split_mask"),
                ("conjunction over columns", SPLIT + ":split_df")],
      "Seeded search with an adversarial random source; each result is checked against the set of legal partitions."),
    P("C09", "Bootstrap error bars and tests of means are those of the draws made",
      "A bootstrap confidence interval, error bar or p-value of a mean is the percentile bootstrap of the resamples actually drawn: "
      "each resample weighs n points by their multiplicities, every resample counts once, and clipping to the loss limits applies. "
      "This holds for every outcome of the random stream, for single points, constant and infinite losses, paired or not, in tables "
      "and in direct calls.",
      ["schedules", "inputs", "histories"],
      "all data and confidence levels, and every outcome of the random stream (also resamples of a single point or all equal)",
      "The tests check moments and coverage at natural draws with tolerances that hide systematic errors.",
      [BOOT, CORE], [("resampling weights", BOOT + ":boot_weights"), ("percentiles", BOOT + ":percentile, error_bar"),
                     ("test", BOOT + ":significance"), ("bootstrap of the mean", CORE + ":boot_EB, boot_test")],
      "Seeded search with recorded and adversarial draws; results recomputed from the recorded draws by a reference model."),
    P("C10", "Curve areas, error bars, tests and envelopes are those of the draws made",
      "The area under a ROC, precision-recall or precision-recall-gain curve is that of the unweighted data; its error bar, the paired "
      "p-value against another method or a constant, and the confidence envelope are the percentile bootstrap of the areas and curves "
      "of the resamples drawn, with the same resample used for both methods of a pair and for every point of the curve. Ties, a single "
      "class and resamples that lose a class do not change this.",
      ["schedules", "inputs", "histories"],
      "all scores and labels (ties, one class, few points), grids, confidence levels and every outcome of the random stream",
      "The tests compare curves with sklearn on natural data and never see a rare resample.",
      [CLF, CURVE, BOOT, UTIL], [("bootstrap of curves", CLF + ":curve_boot"), ("tables", CLF + ":curve_summary_table"),
                                 ("weighted curves", CURVE + ":_binary_clf_curve, roc_curve, recall_precision_curve, prg_curve"),
                                 ("area and interpolation", UTIL + ":area, interp1d")],
      "Seeded search with recorded and adversarial draws; an interval-valued reference model recomputes every number."),
    P("C11", "Error bars and p-values never contradict each other",
      "Where an error bar and a p-value describe the same effect, p < 1 - confidence exactly when the error bar excludes zero, for the "
      "t, Bernstein and bootstrap methods, means and curve areas, and for every outcome of the random stream. Error bars never shrink "
      "when the confidence grows, p-values are in [0, 1], and a method compared with its equal is never significant.",
      ["inputs", "schedules"],
      "all data, confidence levels, limits and outcomes of the random stream, with effects placed near the decision boundary",
      "The tests check this on natural draws, where an effect is almost never close to the boundary, and not in tables or curves.",
      [CORE, BOOT, CLF], [("interval", CORE + ":t_EB, bernstein_EB, boot_EB"), ("test", CORE + ":t_test, bernstein_test, boot_test"),
                          ("shared resamples", CORE + ":get_mean_EB_test"), ("paired areas", CLF + ":curve_boot")],
      "Seeded search with boundary-seeking effects and adversarial draws."),
    P("C12", "Every score table is the one the predictions imply, after any history",
      "Loss tables, summaries and one-call benchmarks contain, for every method and metric, the mean of its losses, the error bar and "
      "p-value of the chosen method (of the paired difference to the reference when paired), clipped to the metric's limits, and NaN "
      "for the reference itself. This does not depend on the order of rows, columns or methods, on row labels, on earlier calls, or "
      "on estimators or metrics that failed before a retry; invalid tables and limits are refused.",
      ["histories", "inputs", "fault_sequences"],
      "all sessions of benchmark and table calls over all losses, methods, limits, confidence levels and inputs, with estimators and "
      "metrics failing at any point before a retry",
      "The tests recompute tables with the library's own functions for a few natural inputs with ordered columns and default labels.",
      [CORE, CLF, REG, UTIL], [("summary", CORE + ":loss_summary_table"), ("statistics", CORE + ":get_mean_EB_test, clip_EB"),
                               ("loss tables", CLF + ":loss_table"), ("loss tables", REG + ":loss_table"),
                               ("benchmarks", CLF + ":just_benchmark"), ("benchmarks", REG + ":just_benchmark")],
      "Seeded search over sessions; every number recomputed by a scalar reference model that shares no code with the library."),
    P("C13", "The formatted report says what the table says",
      "In a formatted report each estimate is the mean rounded half up at the last digit kept of its error bar, each error bar is "
      "rounded up to two digits, each p-value is rounded up to four decimals or shown as below the smallest, and the number printed "
      "is the value times the power of ten that the header states, as a number or a unit prefix. That power is a multiple of the modulus asked for "
      "and no other allowed one prints the column shorter; limits on means and error bars, missing entries and units appear as asked and "
      "columns align at the decimal point. None of it depends on ambient decimal settings, other threads, earlier or interrupted "
      "calls, or the order of the table's columns.",
      ["inputs", "configurations", "schedules", "histories"],
      "all tables of finite and non-finite means, error bars and p-values over all magnitudes, all formatting options and all ambient "
      "decimal contexts and interleavings of concurrent reports",
      "The tests format numbers of moderate size one function at a time, under the default decimal context, in one thread.",
      [SCI, "mlpaper/constants.py"], [("rounding", SCI + ":decimalize, create_decimal"), ("scale", SCI + ":find_shift"),
                                      ("strings", SCI + ":print_estimate, print_pval, pad_num_str"), ("headers", SCI + ":adjust_headers")],
      "Seeded search over tables, options, ambient contexts and interleavings; the text is parsed back and compared with exact "
      "rational arithmetic."),
    P("C14", "Tie-breaking noise keeps order and makes values distinct, on any draw",
      "Adding tie-breaking noise to scores never changes the order of two scores that differ, moves none by more than the smallest "
      "gap, and keeps the length and the input; this holds for every outcome of the random stream.",
      ["inputs", "schedules"], "all score vectors, also empty, constant and of huge range, and every outcome of the random stream",
      "The test draws normal samples, where the gaps are benign and the noise natural.",
      [UTIL], [("noise", UTIL + ":epsilon_noise")], "Seeded search with an adversarial random source."),
    P("C15", "Losses are proper: no prediction beats the true distribution on average",
      "For every distribution over labels, the expected log, Brier and spherical loss is least when that distribution is predicted, "
      "and the expected decision loss is least for the decision taken; the Gaussian log loss likewise.",
      ["inputs"], "all distributions, predictions and loss matrices", "Tests sample a few distributions.",
      [CLF, REG], [("losses", CLF + ":log_loss, brier_loss, spherical_loss, hard_loss")],
      na="A law of pure functions of their arguments: no schedule, fault, time, I/O or history can affect it, so a simulator has "
         "nothing to control. Values of the losses are compared with a reference model as part of C04 and C12."),
    P("C16", "Error bars cover at their stated rate",
      "Over repeated samples, intervals contain the true mean at least as often as the stated confidence: exactly for t with normal "
      "losses, always for Bernstein, asymptotically for the bootstrap.",
      ["inputs"], "all loss distributions", "Tests estimate coverage for a few distributions.",
      [CORE, BOOT], [("intervals", CORE + ":t_EB, bernstein_EB, boot_EB")],
      na="A statement about a probability over natural draws, to be settled by mathematics or statistics, not by controlling "
         "individual executions. That the intervals are the formulas and the percentile bootstrap of the draws is C09, C10 and C12."),
    P("C17", "Lagged frames align every row with its own past",
      "A frame of lagged columns has, for each row and lag, the value that many rows before in the original, and NaN where none exists.",
      ["inputs"], "all frames and lags", "No test covers it.",
      [SPLIT], [("lags", SPLIT + ":build_lag_df")],
      na="A pure function of one data frame without randomness, I/O or state; C05 and C06 run it among other calls for interference "
         "and leftovers only."),
    P("C18", "LaTeX output compiles to the same table as the plain text",
      "The LaTeX source of a report contains the same numbers, headers and alignment as the plain text report.",
      ["inputs"], "all tables and options", "Tests only check that it runs.",
      [SCI], [("export", SCI + ":table_to_latex")],
      na="The installed pandas needs jinja2 for to_latex, which is not installed and cannot be fetched, so the code cannot run here. "
         "The LaTeX headers, which can, are checked in C13."),
]

BUILT = ["C%02d" % k for k in range(1, 15)]


def main():
    have = [p for p in PROPS if p["na"] or os.path.exists(os.path.join(HERE, "vsim", "props", p["pid"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = [dict(property=p["pid"], quick_cmd="./check %s --tier quick" % p["pid"], thorough_cmd="./check %s --tier thorough" % p["pid"],
                   evidence_file="evidence/%s.json" % p["pid"], technique="deterministic simulation with fault injection (seeded search)",
                   level="exploration", level_note=p["level_note"]) for p in have if not p["na"]]
    man = dict(version=1, setup_cmd="./check setup", checks=checks,
               not_applicable=[dict(property=p["pid"], reason=p["na"]) for p in have if p["na"]],
               notes="No hooks in /repo: files, clocks, randomness, threads, estimators and metrics are reached through seams that "
                     "exist already (patched from /verif). Replay a violation with ./check replay FILE.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
