-------------------------------- MODULE Total --------------------------------
(* When an input is valid, and that a valid one goes through all stages. The      *)
(* guards of the stages are the assumptions that the code makes there.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* inp: [n rows, feats: <<[cat, distinct]>>, classes: number of different target values, finite, maxtarget: power of 10,  *)
(*       fr, ffr: fractions in 1/1000, bins, bits, depth, minleaf, freq, lr, lambda, alpha: 1/1000, niter, objective]      *)
Useful(inp) == {f \in DOMAIN inp.feats : inp.feats[f].distinct > 1}
Rounded(count, fraction) == (2 * count * fraction + 1000) \div 2000
InBag(inp) == Rounded(inp.n, inp.fr)
Sampled(inp) == Rounded(Cardinality(Useful(inp)), inp.ffr)

ValidData(inp) == inp.n >= 1 /\ inp.finite /\ Useful(inp) # {} /\ inp.maxtarget <= 15
ValidConfig(inp) ==
    /\ inp.bins >= 1 /\ inp.bits \in {1, 2, 4, 8} /\ inp.depth >= 1 /\ inp.minleaf >= 0 /\ inp.freq >= 0
    /\ inp.fr \in 1 .. 1000 /\ inp.ffr \in 1 .. 1000 /\ inp.lr \in 0 .. 1000 /\ inp.lambda >= 0 /\ inp.alpha \in 1 .. 999
ValidObjective(inp) ==
    /\ inp.objective = "binary" => inp.classes = 2
    /\ inp.objective = "hinge" => inp.classes <= 2
    /\ inp.objective = "hinge" => inp.bits = 2
Valid(inp) == ValidData(inp) /\ ValidConfig(inp) /\ ValidObjective(inp) /\ InBag(inp) >= 1 /\ Sampled(inp) >= 1
===============================================================================
