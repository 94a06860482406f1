--------------------------------- MODULE Cli ---------------------------------
(* The command line tool: an invocation goes through stages, each of which can    *)
(* fail. Only one that has passed all of them prints results.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Subs == {"tree", "boost", "boost_and_predict_raw"}
(* Arguments that can be given: [text, name, ok]                                  *)
Pool == <<
    [text |-> "objective=huber", name |-> "objective", ok |-> TRUE],
    [text |-> "objective=BINARY", name |-> "objective", ok |-> TRUE],
    [text |-> "objective=nope", name |-> "objective", ok |-> TRUE],
    [text |-> "metrics=l2,rmse", name |-> "metrics", ok |-> TRUE],
    [text |-> "metrics= Binary_Error , binary_loss,L2", name |-> "metrics", ok |-> TRUE],
    [text |-> "metrics=l2,bogus", name |-> "metrics", ok |-> TRUE],
    [text |-> "max_tree_depth=x", name |-> "max_tree_depth", ok |-> FALSE],
    [text |-> "nonsense", name |-> "", ok |-> FALSE],
    [text |-> "bogus=1", name |-> "", ok |-> FALSE],
    [text |-> "example_fraction=0.7", name |-> "example_fraction", ok |-> TRUE],
    [text |-> "csv_has_header=false", name |-> "csv_has_header", ok |-> TRUE],
    [text |-> "csv_delimiter=59", name |-> "csv_delimiter", ok |-> TRUE],
    [text |-> "categorical_features=1,2", name |-> "categorical_features", ok |-> TRUE],
    [text |-> " learning_rate =  0.3 ", name |-> "learning_rate", ok |-> TRUE],
    [text |-> "discr_nbits=8", name |-> "discr_nbits", ok |-> TRUE],
    [text |-> "metric_frequency=2", name |-> "metric_frequency", ok |-> TRUE],
    [text |-> "metric_frequency=0", name |-> "metric_frequency", ok |-> TRUE],
    [text |-> "max_nbins=3", name |-> "max_nbins", ok |-> TRUE],
    [text |-> "sample_freq=2", name |-> "sample_freq", ok |-> TRUE],
    [text |-> "objective=L1", name |-> "objective", ok |-> TRUE],
    [text |-> "niterations=6", name |-> "niterations", ok |-> TRUE],
    [text |-> "metrics=rmse", name |-> "metrics", ok |-> TRUE],
    [text |-> "max_tree_depth=-1", name |-> "max_tree_depth", ok |-> FALSE],
    [text |-> "=", name |-> "", ok |-> FALSE],
    [text |-> "random_seed=7", name |-> "random_seed", ok |-> TRUE],
    [text |-> "random_seed=-1", name |-> "random_seed", ok |-> FALSE],
    [text |-> "feature_fraction=0.67", name |-> "feature_fraction", ok |-> TRUE],
    [text |-> "min_examples_leaf=3", name |-> "min_examples_leaf", ok |-> TRUE],
    [text |-> "reg_lambda=1.5", name |-> "reg_lambda", ok |-> TRUE],
    [text |-> "min_gain=0.25", name |-> "min_gain", ok |-> TRUE],
    [text |-> "huber_alpha=0.6", name |-> "huber_alpha", ok |-> TRUE],
    [text |-> "compression_threshold=0", name |-> "compression_threshold", ok |-> TRUE],
    [text |-> "binary_gradient_bound=0.75", name |-> "binary_gradient_bound", ok |-> TRUE],
    [text |-> "max_tree_depth=2", name |-> "max_tree_depth", ok |-> TRUE],
    [text |-> "niterations=1", name |-> "niterations", ok |-> TRUE],
    [text |-> "metrics=", name |-> "metrics", ok |-> TRUE],
    [text |-> "metrics=rmse,L2,rmse", name |-> "metrics", ok |-> TRUE],
    [text |-> "--help", name |-> "", ok |-> FALSE],
    [text |-> "", name |-> "", ok |-> FALSE],
    [text |-> "learning_rate=0.3=4", name |-> "learning_rate", ok |-> FALSE],
    [text |-> "csv_delimiter=44", name |-> "csv_delimiter", ok |-> TRUE],
    [text |-> "csv_has_header=yes", name |-> "csv_has_header", ok |-> FALSE],
    [text |-> "categorical_features=", name |-> "categorical_features", ok |-> TRUE] >>

\* the last argument in a for a name
LastFor(a, name, def) == LET at == {k \in DOMAIN a : Pool[a[k]].name = name} IN IF at = {} THEN def ELSE Pool[a[Max(at)]].text
Files == {"good", "missing", "ragged", "text", "empty", "folder", "binary"}

ArgsOk(inv) == inv.sub \in Subs
SettingsOk(inv) == \A k \in DOMAIN inv.args : Pool[inv.args[k]].ok
NamesOk(inv) == LastFor(inv.args, "objective", "") # "objective=nope" /\ LastFor(inv.args, "metrics", "") # "metrics=l2,bogus"
TrainOk(inv) == inv.train = "good"            \* "none": the argument is missing
TestOk(inv) == inv.test \in {"none", "good"}
Succeeds(inv) == ArgsOk(inv) /\ SettingsOk(inv) /\ NamesOk(inv) /\ TrainOk(inv) /\ TestOk(inv)

Metrics(inv) ==
    LET m == LastFor(inv.args, "metrics", "")
    IN CASE m = "metrics=l2,rmse" -> <<"L2", "Rmse">>
         [] m = "metrics=rmse" -> <<"Rmse">>
         [] m = "metrics=rmse,L2,rmse" -> <<"Rmse", "L2", "Rmse">>
         [] m \in {"", "metrics="} -> << >>
         [] OTHER -> <<"BinaryError", "BinaryLoss", "L2">>
Iterations(inv) == LET n == LastFor(inv.args, "niterations", "") IN IF n = "" THEN 3 ELSE IF n = "niterations=1" THEN 1 ELSE 6
\* how the files are written
Header(inv) == LastFor(inv.args, "csv_has_header", "") # "csv_has_header=false"
Delimiter(inv) == IF LastFor(inv.args, "csv_delimiter", "") = "csv_delimiter=59" THEN ";" ELSE ","
Binary(inv) == LastFor(inv.args, "objective", "") = "objective=BINARY"
Frequency(inv) == LET f == LastFor(inv.args, "metric_frequency", "") IN IF f = "" THEN 1 ELSE IF f = "metric_frequency=2" THEN 2 ELSE 0
\* what is printed while training: <<iteration, metric>>
Progress(inv) ==
    IF inv.sub = "tree" \/ Frequency(inv) = 0 THEN << >>
    ELSE LET its == SelectSeq([k \in 1 .. Iterations(inv) |-> k], LAMBDA k : k % Frequency(inv) = 0)
         IN FlattenSeq([j \in DOMAIN its |-> [m \in DOMAIN Metrics(inv) |-> <<its[j], Metrics(inv)[m]>>]])
\* which results are printed in the end
Results(inv) ==
    LET sets == IF inv.test = "none" THEN <<"train">> ELSE <<"train", "test">>
    IN IF inv.sub = "boost_and_predict_raw" THEN [predictions |-> sets, metrics |-> << >>]
       ELSE [predictions |-> << >>, metrics |-> [m \in DOMAIN Metrics(inv) |-> [name |-> Metrics(inv)[m], sets |-> sets]]]
==============================================================================
