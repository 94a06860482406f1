-------------------------------- MODULE CApi ---------------------------------
(* The C interface: contexts on which functions are called in any order. A        *)
(* context holds settings, data and a model. Result(st, op) is the state after     *)
(* the call and what the call returns.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == << >>

(* Settings that can be tried: [name, value, ok]; py: the value as a Python          *)
(* expression, see Py.tla                                                          *)
Zeros == "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"
ManyBogus == "rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,rmse,l2,bogus"
Settings == <<
    [name |-> "niterations", value |-> "3", py |-> "3", ok |-> TRUE],
    [name |-> "learning_rate", value |-> "0.5", py |-> "0.5", ok |-> TRUE],
    [name |-> "objective", value |-> "huber", py |-> "'huber'", ok |-> TRUE],
    [name |-> "objective", value |-> "nope", py |-> "'nope'", ok |-> TRUE],          \* any text is accepted ..
    [name |-> "metrics", value |-> "rmse, L2", py |-> "['rmse', 'L2']", ok |-> TRUE],
    [name |-> "metrics", value |-> "rmse,bogus", py |-> "'rmse,bogus'", ok |-> TRUE],
    [name |-> "niterations", value |-> "x", py |-> "'x'", ok |-> FALSE],
    [name |-> "nope", value |-> "1", py |-> "1", ok |-> FALSE],
    [name |-> "max_tree_depth", value |-> "2", py |-> "2", ok |-> TRUE],
    [name |-> "discr_nbits", value |-> "8", py |-> "8", ok |-> TRUE],
    [name |-> "max_nbins", value |-> "4", py |-> "'4'", ok |-> TRUE],
    [name |-> "example_fraction", value |-> "0.75", py |-> "0.75", ok |-> TRUE],
    [name |-> "", value |-> "", py |-> "''", ok |-> FALSE],
    [name |-> "reg_lambda", value |-> "1.5", py |-> "1.5", ok |-> TRUE],
    [name |-> "metrics", value |-> "", py |-> "[]", ok |-> TRUE],
    [name |-> "discr_nbits", value |-> "3", py |-> "3", ok |-> TRUE],
    [name |-> "objective", value |-> "L1", py |-> "'L1'", ok |-> TRUE],
    [name |-> "discr_nbits", value |-> "-4", py |-> "-4", ok |-> FALSE],
    [name |-> "categorical_features", value |-> "1,,2", py |-> "'1,,2'", ok |-> FALSE],
    [name |-> "max_tree_depth", value |-> "0", py |-> "0", ok |-> TRUE],
    [name |-> "Niterations", value |-> "3", py |-> "3", ok |-> FALSE],
    [name |-> "train", value |-> "x.csv", py |-> "'x.csv'", ok |-> TRUE],
    [name |-> "categorical_features", value |-> "0,1", py |-> "[0, 1]", ok |-> TRUE],
    [name |-> "min_gain", value |-> "0.00001", py |-> "1e-5", ok |-> TRUE],
    [name |-> "random_seed", value |-> "77", py |-> "77", ok |-> TRUE],
    [name |-> "csv_delimiter", value |-> "44", py |-> "44", ok |-> TRUE],
    [name |-> "metric_frequency", value |-> "2.5", py |-> "2.5", ok |-> FALSE],
    [name |-> "sample_freq", value |-> "2", py |-> "2", ok |-> TRUE],
    [name |-> "learning_rate", value |-> "0.12345679", py |-> "0.12345679", ok |-> TRUE],
    [name |-> "random_seed", value |-> "12345678901", py |-> "12345678901", ok |-> TRUE],
    [name |-> "huber_alpha", value |-> "0.8", py |-> "0.8", ok |-> TRUE],
    [name |-> "feature_fraction", value |-> "0.67", py |-> "0.67", ok |-> TRUE],
    [name |-> "min_examples_leaf", value |-> "2", py |-> "2", ok |-> TRUE],
    [name |-> "compression_threshold", value |-> "0", py |-> "0.0", ok |-> TRUE],
    [name |-> "learning_rate", value |-> "0.5f", py |-> "'0.5f'", ok |-> FALSE],
    [name |-> "example_fraction", value |-> "0.5000001", py |-> "0.5000001", ok |-> TRUE],
    [name |-> "reg_lambda", value |-> Zeros \o "2.5", py |-> "'" \o Zeros \o "2.5'", ok |-> TRUE],         \* values may be long
    [name |-> "min_gain", value |-> "0." \o Zeros \o "x", py |-> "'0." \o Zeros \o "x'", ok |-> FALSE],
    [name |-> "metrics", value |-> ManyBogus, py |-> "'" \o ManyBogus \o "'", ok |-> TRUE],
    [name |-> "metric_frequency", value |-> "0", py |-> "0", ok |-> TRUE],
    [name |-> "metric_frequency", value |-> "2", py |-> "2", ok |-> TRUE] >>

\* the last value given for a name, or its default
LastOf(cfg, name, def) ==
    LET at == {k \in DOMAIN cfg : Settings[cfg[k]].name = name} IN IF at = {} THEN def ELSE Settings[cfg[Max(at)]].value
ConfigTrainable(cfg) == \* .. and found to be unusable by training
    /\ LastOf(cfg, "objective", "L2") # "nope"
    /\ LastOf(cfg, "metrics", "") \notin {"rmse,bogus", ManyBogus}
    /\ LastOf(cfg, "discr_nbits", "4") # "3"
    /\ LastOf(cfg, "max_tree_depth", "6") # "0"

(* Columns that can be set: 0: zeros; 1, 5, 6: numbers that can be categories;     *)
(* 2, 3, 4, 8, 9: that cannot; 7: constant; 10: with values that are no number      *)
NoCategories == {2, 3, 4, 8, 9, 10}
NoNumbers == {10}
Varied == {1, 2, 3, 4, 5, 6, 8, 9}

Ctx == [nf : Nat, cfg : Seq(1 .. Len(Settings))]   \* and data, model
New(nf) == [nf |-> nf, cfg |-> << >>, data |-> None, model |-> None]
Blank(nf, n) == [n |-> n, cols |-> [f \in 1 .. nf + 1 |-> [id |-> 0, cat |-> FALSE]]]
Useful(data) == data.n > 1 /\ \E f \in 1 .. Len(data.cols) - 1 : data.cols[f].id \in Varied

(* Training without a feature that varies, or on values that are no numbers, may    *)
(* fail or give some model; when it fails, nothing changes, as always.             *)
Unsure(x) == x.data # None /\ ConfigTrainable(x.cfg) /\ (~Useful(x.data) \/ \E f \in DOMAIN x.data.cols : x.data.cols[f].id \in NoNumbers)
Unknown == [cfg |-> << >>, data |-> Blank(1, 1)]   \* some model

(* what a call does with its context x: <<x', return value>>; -1: failed          *)
OnCtx(x, op) ==
    CASE op.op = "config" -> IF x.data = None /\ Settings[op.k].ok THEN <<[x EXCEPT !.cfg = Append(@, op.k)], 0>> ELSE <<x, -1>>
      [] op.op = "refresh" -> IF op.n > 0 THEN <<[x EXCEPT !.data = Blank(x.nf, op.n)], 0>> ELSE <<x, -1>>
      [] op.op = "set" ->
            IF x.data # None /\ op.f \in 0 .. x.nf /\ ~(op.cat /\ op.id \in NoCategories)
            THEN <<[x EXCEPT !.data.cols[op.f + 1] = [id |-> op.id, cat |-> op.cat]], 0>>
            ELSE <<x, -1>>
      [] op.op = "train" ->
            IF Unsure(x) THEN <<x, -1>> \* or <<[x EXCEPT !.model = Unknown], 0>>
            ELSE IF x.data # None /\ ConfigTrainable(x.cfg) THEN <<[x EXCEPT !.model = [cfg |-> x.cfg, data |-> x.data]], 0>> ELSE <<x, -1>>
      [] op.op = "predict" -> IF x.data # None /\ x.model # None THEN <<x, 0>> ELSE <<x, -1>>

(* st: function from live handles to contexts. Null pointers and a bad number of    *)
(* features fail; -1 stands for the null pointer an allocation gives.              *)
Result(st, op) ==
    CASE op.op = "alloc" -> IF op.nf > 0 THEN <<[c \in DOMAIN st \cup {op.c} |-> IF c = op.c THEN New(op.nf) ELSE st[c]], 0>> ELSE <<st, -1>>
      [] op.op = "dealloc" -> <<[c \in DOMAIN st \ {op.c} |-> st[c]], 0>>
      [] op.op = "null" -> <<st, -1>>
      [] OTHER -> LET r == OnCtx(st[op.c], op) IN <<[st EXCEPT ![op.c] = r[1]], r[2]>>

\* the predictions that a predict call gives: those of the model trained with .., on ..
Term(x) == IF x.data = None \/ x.model = None THEN None ELSE [cfg |-> x.model.cfg, train |-> x.model.data, data |-> x.data]

(* Predicting numbers where the model has a categorical feature is not specified.    *)
Specified(st, op) ==
    CASE op.op = "predict" -> LET x == st[op.c] IN IF x.data = None THEN TRUE ELSE IF x.model = None \/ x.model = Unknown THEN TRUE
                                  ELSE \A f \in 1 .. x.nf : x.model.data.cols[f].cat => x.data.cols[f].id \in {0, 1, 5, 6, 7}
      [] OTHER -> TRUE
==============================================================================
