------------------------------- MODULE Config --------------------------------
(* Settings: the fields with their types and defaults, and what a line of text   *)
(* does to them. Values: text and lists of text as codes, numbers as digits,      *)
(* real numbers as the text they are written as.                                 *)
EXTENDS Text

MaxU8 == <<50, 53, 53>>
MaxU32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
MaxU64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>

\* name, type, default (as one would write it)
Fields == <<
    [name |-> "train", type |-> "text", def |-> << >>],
    [name |-> "test", type |-> "text", def |-> << >>],
    [name |-> "objective", type |-> "text", def |-> <<76, 50>>],
    [name |-> "metrics", type |-> "texts", def |-> << >>],
    [name |-> "metric_frequency", type |-> "u64", def |-> <<49>>],
    [name |-> "csv_has_header", type |-> "bool", def |-> <<116, 114, 117, 101>>],
    [name |-> "csv_delimiter", type |-> "u8", def |-> <<52, 52>>],
    [name |-> "categorical_features", type |-> "u64s", def |-> << >>],
    [name |-> "niterations", type |-> "u64", def |-> <<49, 48, 48>>],
    [name |-> "learning_rate", type |-> "real", def |-> <<49>>],
    [name |-> "reg_lambda", type |-> "real", def |-> <<48>>],
    [name |-> "min_examples_leaf", type |-> "u32", def |-> <<49>>],
    [name |-> "min_gain", type |-> "real", def |-> <<48, 46, 48, 48, 48, 48, 48, 49>>],
    [name |-> "huber_alpha", type |-> "real", def |-> <<48, 46, 57, 53>>],
    [name |-> "max_nbins", type |-> "u64", def |-> <<49, 54>>],
    [name |-> "discr_nbits", type |-> "u64", def |-> <<52>>],
    [name |-> "max_tree_depth", type |-> "u64", def |-> <<54>>],
    [name |-> "compression_threshold", type |-> "real", def |-> <<48, 46, 53>>],
    [name |-> "binary_gradient_bound", type |-> "real", def |-> <<49, 46, 50, 53>>],
    [name |-> "random_seed", type |-> "u64", def |-> <<49>>],
    [name |-> "feature_fraction", type |-> "real", def |-> <<49>>],
    [name |-> "example_fraction", type |-> "real", def |-> <<49>>],
    [name |-> "sample_freq", type |-> "u64", def |-> <<49>>] >>

FieldNo(name) == LET at == {k \in DOMAIN Fields : Fields[k].name = name} IN IF at = {} THEN 0 ELSE Min(at)

Items(s) == IF s = << >> THEN << >> ELSE LET p == Split(s, 44) IN [k \in DOMAIN p |-> Trim(p[k])]
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Valid(type, s) ==
    CASE type = "text" -> TRUE
      [] type = "texts" -> TRUE
      [] type = "bool" -> s \in {True, False}
      [] type = "u8" -> IsNat(s, MaxU8)
      [] type = "u32" -> IsNat(s, MaxU32)
      [] type = "u64" -> IsNat(s, MaxU64)
      [] type = "u64s" -> \A k \in DOMAIN Items(s) : IsNat(Items(s)[k], MaxU64)
      [] type = "real" -> IsFloat(s)
Value(type, s) ==
    CASE type \in {"text", "bool", "real"} -> s
      [] type = "texts" -> Items(s)
      [] type \in {"u8", "u32", "u64"} -> NatOf(s)
      [] type = "u64s" -> [k \in DOMAIN Items(s) |-> NatOf(Items(s)[k])]

Defaults == [k \in DOMAIN Fields |-> Value(Fields[k].type, Fields[k].def)]

\* a field is set: <<the new settings, "" or what is wrong>>
Set(cfg, no, value) ==
    IF no = 0 THEN <<cfg, "name">>
    ELSE IF ~Valid(Fields[no].type, value) THEN <<cfg, "value">>
    ELSE <<[cfg EXCEPT ![no] = Value(Fields[no].type, value)], "">>

\* shown: what the code shows of a value; a real number is the float nearest to what is written
Shows(type, v, shown) == IF type = "real" THEN SameFloat(v, shown.v) /\ Nearest(v, shown.near) ELSE v = shown
==============================================================================
