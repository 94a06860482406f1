#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}})

L, T, D = "src/tree/learner.rs", "src/tree/tree.rs", "src/dataset.rs"

p("C01", "The model predicts a training row with the leaf that was fitted on it",
  "After every boosting iteration, the prediction of the model for each training row (evaluated by routing the row through the trees) equals the prediction maintained by the objective during training: the bias plus, per tree, the value of the leaf whose fitted rows include it, or the value the tree gives it when it was out of bag. "
  "So the example sets a split produced during learning, and the route the finished tree gives the same rows, agree for every feature type (numerical, low- and high-cardinality categorical).",
  ["inputs", "configurations", "histories"],
  "all data sets (feature types, duplicates, values at split boundaries, negative values), all configurations of depth, discretisation bits, sampling, bins and compression, all iterations, all objectives",
  "The unit tests never train a model: they test bit kernels, binning of one small data set, and objectives in isolation.",
  [L, T, D, "src/boost.rs"],
  [("split_examples / predict_child_leaf_values divide rows by the masks", L), ("predict_leaf_id_of_example routes by value", T), ("update_num / update_hicard_cat build masks", D), ("AdditiveTree::predict_buf adds the trees to the bias", T)],
  ["predictions of Tree and AdditiveTree on the training data", "Objective::predict_leaf_value / update_out_of_bag_prediction calls"])

p("C02", "Every sampled row is in exactly one leaf, every other row is updated once",
  "For every tree, the example lists handed to the objective for leaf values are non-empty, contain no duplicates, and partition exactly the sampled (in-bag) rows; every row outside the sample receives exactly one out-of-bag update, and no other row does. "
  "Each leaf of the finished tree holds the value fitted for it.",
  ["inputs", "configurations", "histories"],
  "all data sets, all bag samples, all depths, compressed and uncompressed node representations, number of rows not a multiple of 32, 128 or 256",
  "No test runs the tree learner; index iterators are tested on a few fixed masks only.",
  [L, D, "src/slice_store.rs"],
  [("extend_examples! maps mask bits to rows", L), ("compress_examples keeps the non-zero blocks", L), ("InactiveExampleIter enumerates out-of-bag rows", D), ("index_iter* iterate mask bits", "src/slice_store.rs")],
  ["calls received by Objective"])

p("C03", "Each node takes the best admissible split on the stored gradients",
  "At every node the learner takes a split with maximal regularised gain (reg_lambda; on the discretised gradient sums of the rows of the node) among all bins of all sampled features that leave at least min_examples_leaf rows on both sides, provided that gain exceeds min_gain; a node above the maximal depth is a leaf only if no such split exists. "
  "This holds at every depth, for derived (parent minus sibling) as well as directly built histograms, up to float rounding.",
  ["inputs", "configurations", "histories"],
  "all gradients (also clamped ones), all bit widths 1, 2, 4, 8, all node sizes (SIMD main loops and remainders), all feature subsets",
  "No test looks at histograms, gains or chosen splits.",
  [L, "src/count_and_sum.rs", "src/slice_store.rs"],
  [("find_best_split maximises the gain", L), ("build_histograms counts and sums per bin", L), ("hists_subtract derives the sibling", "src/slice_store.rs"), ("get_loss", L)],
  ["leaves and tree structure of trained trees"])

p("C04", "Compression of nodes does not change the learned model",
  "Training with any compression_threshold (compressing always, sometimes or never) yields, for the same data, configuration and seed, the same leaves with the same rows in the same order, the same values and the same predictions. "
  "A compressed node represents exactly the same set of rows and gradients as its uncompressed form.",
  ["inputs", "configurations", "histories"],
  "all data sets (clustered so that many 32-row blocks become empty, also nested compressions), thresholds from 0 to 1, all bit widths, with and without bagging, where gradient sums are exact in 32-bit floats",
  "The tests compare compressed kernels for single fixed patterns; the interplay in the learner (nested compression, shared index ranges) is never run.",
  [L, "src/slice_store.rs", "src/count_and_sum.rs"],
  [("compr_examples_w* build the compressed index/mask/gradient blocks", L), ("*_compr kernels and iterators", "src/slice_store.rs"), ("sum_mask_and_compr", "src/count_and_sum.rs")],
  ["event log of the objective and predictions for several thresholds"])

p("C05", "Trees respect maximal depth, leaf size and number of iterations",
  "A trained tree is a full binary tree of depth at most max_tree_depth; every leaf created by a split holds at least min_examples_leaf sampled rows and is never empty; reported node counts match the actual structure. "
  "Training builds exactly niterations trees, initialising the objective once and updating it once before each tree.",
  ["inputs", "configurations"],
  "all data sets, depths, min_examples_leaf and iteration counts, including data on which no split is possible",
  "Only the size formulas of an empty tree are tested.",
  [L, T, "src/boost.rs"],
  [("is_max_leaf_node / split_node", T), ("min_examples check in find_best_split", L), ("train loop", "src/boost.rs")],
  ["leaf row lists", "node counts and node values of Tree", "calls received by Objective"])

p("C06", "Row and feature samples have the configured size, uniform and on schedule",
  "Each sample consists of distinct rows in ascending order, round(example_fraction * n) of them, and of distinct useful features (those with more than one value), round(feature_fraction * number of useful features) of them. "
  "A new sample is drawn at the first iteration and then at every multiple of sample_freq, and is reused unchanged in between; with fractions of 1 everything is used. "
  "Over seeds and iterations every row and feature is selected sometimes and left out sometimes, at about the configured rate.",
  ["inputs", "configurations", "histories"],
  "all fractions, sample frequencies, seeds and iterations, constant and single-category features among the columns",
  "One test fixes a seed and a fraction and checks the one sample it gives.",
  [D],
  [("shuffle_first_k", D), ("Dataset::update and its sample_freq schedule", D), ("useful_features", D)],
  ["active_examples_iter, active_features after each update"])

p("C07", "The bit mask of a split candidate selects exactly the rows it describes",
  "For every offered split of every sampled feature, the set bits of its mask are exactly the sampled rows that satisfy the split: value < split value for numerical features, category = value for low-cardinality and super-category <= value for high-cardinality ones. "
  "This holds after every update, whatever masks previous samples left behind.",
  ["inputs", "configurations", "histories"],
  "all numerical values (at, just below and just above split values, large magnitudes, negative), all categories, all samples and successive updates",
  "The tests compare the masks of three hand-written data sets for one update each.",
  [D],
  [("update_num / update_hicard_cat / update_locard_cat", D), ("fill_bitvecs, accumulate_bitvecs, zero_bitvecs", D)],
  ["get_bitvec, get_split_value, get_supercats of Dataset"])

p("C08", "Split candidates cover the values of a feature as documented",
  "A low-cardinality feature offers one candidate per category (a single one for two categories); a numerical feature offers between 1 and max_nbins ascending candidates within the range of its values, at the quantiles of the sampled rows weighted with their absolute gradients; a high-cardinality feature groups categories into at most max_nbins + 1 super-categories that are monotone in the mean gradient of the category over the sampled rows, cut at the quantiles of the sampled rows in that order. "
  "Categories with equal mean gradient share a super-category.",
  ["inputs", "configurations", "histories"],
  "all value distributions, gradients (also zero, also clamped), bin counts, samples and successive updates",
  "The tests compare the candidates of a few hand-written columns with unit gradients.",
  [D, "src/binner.rs", "src/data.rs"],
  [("quantile estimation in update_num and update_hicard_cat", D), ("rank_iter", "src/binner.rs"), ("max_nbins", "src/data.rs")],
  ["get_nbins, get_split_value, get_supercats of Dataset"])

p("C09", "Loading represents the input faithfully or fails with an error",
  "Loading a CSV yields exactly its cells (parsed as 32-bit floats, in order; last column is the target), names from the header if there is one, minimum and maximum per column, and for categorical columns the cardinality and the low/high-cardinality type; ragged records, non-numeric cells, non-integral or negative categories and input without records give an error, never a panic or partial data. "
  "Setting the columns one by one through the in-memory interface gives the same result, in any order and also when a column is set again.",
  ["inputs", "configurations", "histories"],
  "all matrices, headers, delimiters, categorical column sets, malformed inputs, sequences of column updates",
  "Two small well-formed files are tested; the in-memory interface and malformed input are not.",
  ["src/data.rs"],
  [("from_csv", "src/data.rs"), ("set_feature_data", "src/data.rs"), ("check_categorical_value", "src/data.rs")],
  ["accessors of Data"])

p("C10", "A configuration is the defaults overridden by the given fields, or an error",
  "Parsing a sequence of name=value settings (surrounding blanks are ignored, the value may contain '=' characters) gives the documented defaults with each named field replaced by the last value given for it and no other field changed; lists are comma separated. "
  "An unknown name, a line without '=' or a value that does not parse as the field's type gives an error naming the problem, and a rejected setting leaves the configuration as it was.",
  ["inputs", "histories", "configurations"],
  "all fields, all values valid and invalid for each type, all sequences of settings",
  "There is a single test which parses one valid configuration.",
  ["src/config.rs"],
  [("parse_config! macro, parse_record, parse_vec", "src/config.rs")],
  ["public fields of Config", "write_doc_csv"])

p("C11", "The C interface reports success or -1, and follows its call protocol",
  "For every sequence of calls: configuration is accepted only before data is loaded, feature data only after data is allocated and for existing columns, training only with data, prediction only with data and a trained model; every other call, unknown field, invalid value, unknown objective or metric returns -1 (a null pointer from allocation) without ending the process and without changing what later calls observe. "
  "Predictions after a sequence equal those of the native library with the same configuration and data; loading new data keeps the model; contexts are independent of each other.",
  ["histories", "inputs"],
  "all call sequences, including failing calls in between, several contexts, refreshes, retraining",
  "No test calls the C interface.",
  ["src/c_api.rs"],
  [("wrap_catch_unwind!", "src/c_api.rs"), ("Context state checks", "src/c_api.rs")],
  ["return codes and predictions of bb_*"])

p("C12", "Storage hands out disjoint ranges that keep their content until freed",
  "For every sequence of allocations, writes, frees and resets of the block and histogram stores: live ranges are pairwise disjoint, correctly sized, initialised as requested (zeros, ones, given blocks), keep exactly what was last written to them whatever happens to other ranges, and freed ranges are reused only when they fit. "
  "Histogram subtraction writes exactly the element-wise difference, and per-feature histograms do not overlap.",
  ["histories", "inputs"],
  "all operation sequences and sizes, including growth of the underlying buffer, reuse after free and reset",
  "Tests perform a handful of allocations and never mix frees, reuse and growth.",
  ["src/slice_store.rs"],
  [("SliceStore::alloc_slice, free_slice", "src/slice_store.rs"), ("HistStore", "src/slice_store.rs"), ("BitBlockStore", "src/slice_store.rs")],
  ["ranges and contents of the stores"])

p("C13", "Bit kernels count, sum and enumerate exactly, for every size and pattern",
  "Counting set bits under one or more masks, summing bit-sliced gradients under masks (each bit width, plain and compressed, SIMD and scalar variants) and iterating over set bit positions give exactly the result of the naive definition, for every length. "
  "Setting, clearing and reading single bits affects only the addressed bit, and bits beyond the requested length are never counted.",
  ["inputs"],
  "all bit patterns, lengths (not multiples of the block size, long enough for the SIMD main loops and accumulators), mask combinations and compressed index lists",
  "Tests use a few fixed or random patterns at a few lengths; several compressed variants and the upper accumulator ranges are not covered.",
  ["src/bitblock.rs", "src/bitset.rs", "src/slice_store.rs", "src/simd.rs", "src/count_and_sum.rs", "src/bitslice.rs"],
  [("count_and*, sum_masked*, index_iter*", "src/slice_store.rs"), ("avx2/sse kernels", "src/count_and_sum.rs"), ("simd::*", "src/simd.rs")],
  ["results of the public kernels"])

p("C14", "Objectives have the documented gradients, bounds, bias and leaf values",
  "Each objective starts all predictions at its bias (mean for L2, median for L1 and Huber, half log-odds for binary, class balance for hinge), gives as gradients the negative pseudo-residuals of its loss at the current predictions, bounds that match its definition, and leaf values that are learning_rate times the documented estimate from the rows of the leaf. "
  "The returned leaf value is added to exactly those rows; an out-of-bag update changes exactly one prediction.",
  ["inputs", "histories", "configurations"],
  "all targets, predictions, leaf partitions, learning rates and sequences of calls",
  "Few of the objectives have a test, on a handful of targets, and never over several iterations.",
  ["src/objective.rs", "src/binner.rs"],
  [("initialize, update, predict_leaf_value per objective", "src/objective.rs"), ("quantile! / median!", "src/objective.rs")],
  ["gradients, bounds, bias, predictions and leaf values of Objective"])

p("C15", "Metrics compute the documented value",
  "Each metric returns the mean over all examples of its loss for the given targets and predictions (the square root of the mean squared error for RMSE; binary error counts predictions on the wrong side of the decision threshold), for any number of examples. "
  "Metric names resolve, in any case, to the metric of that name, in the given order; an unknown name is rejected.",
  ["inputs", "configurations"],
  "all targets, predictions and lists of metric names",
  "No test evaluates a metric.",
  ["src/metric.rs"],
  [("impl_metric!, eval", "src/metric.rs"), ("metrics_from_names", "src/metric.rs")],
  ["Metric::eval, Metric::name"])

p("C16", "Training is deterministic: same input and seed, same model",
  "Training twice with the same data, configuration and seed gives identical samples, trees and predictions, bit for bit, whatever the number of worker threads or their scheduling, in the same process or another one, and whether the data came from CSV or memory. "
  "The model after k iterations does not depend on how many iterations follow, and metrics or their frequency do not influence the model.",
  ["schedules", "configurations", "inputs"],
  "all thread counts and interleavings of histogram construction, repeated runs, all data sets and configurations",
  "Tests never train, and never vary the number of threads.",
  [L, D, "src/boost.rs", "src/slice_store.rs"],
  [("parallel histogram construction over disjoint histograms", L), ("SmallRng seeded with random_seed", D)],
  ["predictions and objective event logs of repeated runs"])

p("C17", "Unseen rows are routed by the splits, and the model is the sum of its trees",
  "For any row, also with values outside the training range or categories never seen in training, the tree returns the value of the leaf reached by its splits: less-than on numbers, equality on low-cardinality categories, super-category order on high-cardinality ones, unseen high-cardinality categories going right, as do NaNs of numerical features. "
  "The model's prediction is its bias plus the sum of the values of its trees (just the bias without trees), independently of the other rows of the batch and of any earlier content of the output buffer. A tree with a shrinkage and a bias of its own predicts the shrinkage times the sum of leaf value and bias; shrinkages set one after the other multiply.",
  ["inputs", "histories"],
  "all prediction data sets, including unseen categories and out-of-range values, all trained models",
  "No test predicts with a tree that has splits.",
  [T],
  [("predict_leaf_id_of_example", T), ("AdditiveTree::predict_buf, Tree::predict_and", T)],
  ["predictions of Tree and AdditiveTree on other data"])

p("C18", "The binner puts every value in its bin and finds ranks exactly",
  "For a range divided into k equal bins, a value is put in the bin whose interval contains it (values outside the range in the first or last bin), inserting combines into that bin only, and the representative of a bin is its lower boundary, with indices past the end limited to the last bin. "
  "The bin for a rank is the first bin at which the accumulated count exceeds the rank, the last one if none does, for ascending sequences of ranks as for single ones.",
  ["inputs", "histories"],
  "all ranges of which the width of a bin is a normal float, numbers of bins, values (also on boundaries and out of range), counts and ascending ranks",
  "Two tests cover one range each with a few values.",
  ["src/binner.rs"],
  [("get_bin, bin_representative", "src/binner.rs"), ("RankIter::next", "src/binner.rs")],
  ["Binner public interface"])

p("C19", "Valid input never makes training, prediction or loading panic",
  "For every valid data set (finite values, at least one feature with more than one value) and valid configuration, loading, training with each objective and prediction finish without panicking and give a finite prediction for every row. "
  "This includes tiny data sets, constant or duplicate columns, constant targets, all-zero gradients, few rows compared to the number of bins, depths that cannot be reached, and any sample that contains at least one row and one feature.",
  ["inputs", "configurations"],
  "all valid data sets and configurations, each objective, each bit width",
  "No test trains a model.",
  ["src/boost.rs", L, D, "src/objective.rs", "src/binner.rs", "src/data.rs"],
  [("the whole training pipeline", "src/boost.rs")],
  ["result of Booster::train and predict"])

p("C20", "The command line tool trains and predicts exactly like the library",
  "For each sub-command the tool's printed predictions and metric values are those of the library for the same configuration and files: boost_and_predict_raw prints the predictions for the training rows, then for the test rows if there is a test file; boost and tree print train (and test) metrics of the boosted model and of a single tree with the objective's bias. "
  "Missing or unknown sub-commands, invalid settings and unreadable or malformed files give an error message and a non-zero exit status.",
  ["inputs", "configurations", "histories"],
  "all sub-commands, settings, and training/test files, valid and invalid",
  "The binary has no tests.",
  ["src/bin/run.rs", "src/boost.rs"],
  [("main, parse, load_data, single_tree, summary", "src/bin/run.rs")],
  ["stdout and exit status of the binary"])

p("C21", "Gradients are stored at the nearest level, and sums are rescaled exactly",
  "Storing a gradient with b bits within given bounds maps it to the nearest of 2^b equally spaced levels (clamped to the bounds, both bounds exactly representable; with one bit, bounds and rounding follow the same rule), reading it back gives that level, other elements are unaffected, and the sum of c stored levels is converted back to c times the lower bound plus the level sum times the step. "
  "Copying a block between slices copies all bits of exactly that block.",
  ["inputs", "histories"],
  "all widths 1, 2, 4, 8, all values and bounds, all element positions and write sequences",
  "Tests write a few fixed values per width.",
  ["src/slice_store.rs", "src/bitslice.rs"],
  [("set_scaled_value, get_value, set_value", "src/slice_store.rs"), ("linproj, sum_all*", "src/slice_store.rs")],
  ["BitSlice getters and sums"])

p("C22", "The Python classes train and predict as the library does, and raise on failure",
  "For every sequence of calls of RawBitBoost, and every fit and predict of the estimator, the predictions are those of the library for the same settings, columns and categorical flags. "
  "A method raises an exception when a call of the library fails, when a setting is unknown or its value invalid, or when a column has another number of rows or another float type than the library's; a setting or column that is refused changes nothing. "
  "The table of settings (written by write_doc_csv, and shipped with the classes) lists the settings of the library, each with its default value and type, and marks exactly those of the command line tool as cli only.",
  ["histories", "configurations", "inputs"],
  "all sequences of method calls, including failing ones, all parameters and data",
  "Neither the Python classes nor the table of settings have tests.",
  ["python/bitboost/bitboost.py", "python/bitboost/sklearn.py", "src/c_api.rs", "src/config.rs"],
  [("RawBitBoost", "python/bitboost/bitboost.py"), ("BitBoostRegressor", "python/bitboost/sklearn.py"), ("write_doc_csv", "src/config.rs"), ("bb_set_config_field, bb_set_feature_data, bb_train, bb_predict", "src/c_api.rs")],
  ["RawBitBoost, BitBoostRegressor/Classifier; bitboost_gen_config_csv"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
