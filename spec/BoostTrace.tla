----------------------------- MODULE BoostTrace -----------------------------
(* Validation of recorded training runs against Boost.                       *)
(* Each line of the trace file is one run of the real learner. The topology  *)
(* of a tree is read off the ids of the nodes that hold a leaf value; which  *)
(* candidate an inner node used is inferred: it has to be one that explains  *)
(* both how the training rows were divided and how the finished tree routes  *)
(* training rows and unseen rows.                                            *)
EXTENDS Boost, Json, IOUtils

VARIABLE tr
tvars == <<vars, tr>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Iter == Rec.iters[it + 1]
Where == <<Rec.kind, Rec.tr, Rec.size, "tree", it + 1>>
R(tag, cond, msg) == Req(tag, Where, cond, msg)

Conv(r) == [n |-> r.n, w |-> r.w, nf |-> r.nf, depth |-> r.depth, niter |-> r.niter, minex |-> r.minex,
            lam2 |-> r.lam2, lo |-> r.lo, hi |-> r.hi, bias |-> r.bias, k2 |-> r.k2, mgk |-> r.mgk,
            tol |-> r.tol, ftype |-> r.ftype, vals |-> r.vals]
None == [n |-> 0, bias |-> 0]

TInit == /\ tr \in 1 .. Len(Traces)
         /\ Init0(IF Traces[tr].kind = "boost" THEN Conv(Traces[tr]) ELSE None)

RowSet(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* What was sampled *)

\* C06: sampling happens at the first update and at every multiple of sample_freq
Resampled(u) == u = 1 \/ (Rec.freq # 0 /\ u % Rec.freq = 0)

\* the number of sampled rows or features: the fraction, rounded (either way when it is half-way)
RoundOk(k, n, num, den) == 2 * k * den - den <= 2 * n * num /\ 2 * n * num <= 2 * k * den + den

Ascending(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]

\* a feature is of use when it has a candidate: not for one category, or one value
Useful(f) == LET v == {Val(f, r) : r \in Rows} IN
    Cardinality(v) > 1

CandMask(i) == {Iter.cand[i].mask[j] : j \in DOMAIN Iter.cand[i].mask}

SampleOk(bag) ==
    /\ R("C06", Ascending(Iter.bag) /\ bag \subseteq Rows, "bag is not a sorted subset of the rows")
    /\ R("C06", IF Rec.efn = Rec.efd THEN bag = Rows ELSE RoundOk(Count(bag), Count(Rows), Rec.efn, Rec.efd), <<"size of the bag", Count(bag)>>)
    /\ R("C06", Cardinality({Iter.active[i] : i \in DOMAIN Iter.active}) = Len(Iter.active)
                /\ \A i \in DOMAIN Iter.active : Useful(Iter.active[i]), "active features are not distinct useful features")
    /\ R("C06", RoundOk(Len(Iter.active), Cardinality({f \in 0 .. (Rec.nf - 1) : Useful(f)}), Rec.ffn, Rec.ffd), <<"number of active features", Len(Iter.active)>>)
    /\ R("C06", Resampled(it + 1) \/ (Iter.bag = Rec.iters[it].bag /\ Iter.active = Rec.iters[it].active), "sampled at an iteration that should reuse the sample")

\* C07: the mask of a candidate is what the candidate says
MasksOk(bag) ==
    \A i \in DOMAIN Iter.cand :
        LET c == Iter.cand[i] IN
        R("C07", CandMask(i) = {r \in bag : RowLeft(c, Iter.sup, r)}, <<"mask differs from split", c.f, c.k, c.sv>>)

\* C08: which candidates there are
CandsOf(f) == SelectSeq(Iter.cand, LAMBDA c : c.f = f)
CatStat(f, bag) ==    \* category -> <<sum of gradients, number of rows>>, of the sampled rows
    LET cats == {Val(f, r) : r \in bag}
    IN [v \in cats |-> LET S == {r \in bag : Val(f, r) = v}
                       IN <<FoldSet(LAMBDA r, a : a + Iter.grad[r + 1], 0, S), Cardinality(S)>>]
GradRange == LET g == {Iter.grad[i] : i \in DOMAIN Iter.grad} IN g
CandidatesOk(bag) ==
    /\ \A f \in {Iter.active[i] : i \in DOMAIN Iter.active} :
        LET cs == CandsOf(f)
            n == Len(cs)
            cats == {Val(f, r) : r \in Rows}
            card == 1 + Max(cats)
        IN CASE cf.ftype[f + 1] = "lo" ->
                    R("C08", n = (IF card = 2 THEN 1 ELSE card) /\ \A i \in 1 .. n : cs[i].sv = i - 1, <<"one candidate per category, feature", f>>)
             [] cf.ftype[f + 1] = "num" ->
                    /\ R("C08", 1 <= n /\ n <= Rec.maxbins, <<"number of candidates", f, n>>)
                    /\ R("C08", \A i \in 1 .. (n - 1) : cs[i].sv <= cs[i + 1].sv, <<"split values are not sorted, feature", f>>)
                    /\ R("C08", \A i \in 1 .. n : Min(cats) <= cs[i].sv /\ cs[i].sv <= Max(cats), <<"split value outside the values of the feature", f>>)
             [] OTHER ->
                    /\ R("C08", n <= Rec.maxbins, <<"number of candidates", f, n>>)
                    /\ R("C08", \A i \in 1 .. n : cs[i].sv = i - 1, <<"super-categories are not 0, 1, .., feature", f>>)
                    \* the super-category depends on, and is monotone in, the mean gradient of the category;
                    \* a reused sample still has the super-categories of the gradients then
                    /\ IF ~Resampled(it + 1) THEN TRUE ELSE
                       \A st \in {CatStat(f, bag)} :
                         R("C08", \A a, b \in DOMAIN st :
                            LET x == st[a][1] * st[b][2]
                                y == st[b][1] * st[a][2]
                                sa == Super(Iter.sup[f + 1], a)
                                sb == Super(Iter.sup[f + 1], b)
                            IN (x < y => sa <= sb) /\ (x = y => sa = sb), <<"super-categories are not ordered by mean gradient, feature", f>>)
    /\ R("C08", \A i \in DOMAIN Iter.cand : Iter.cand[i].f \in {Iter.active[j] : j \in DOMAIN Iter.active}, "candidate of an inactive feature")

TStart ==
    /\ Rec.kind = "boost" /\ pc = "idle"
    /\ \E bag \in {{Iter.bag[i] : i \in DOMAIN Iter.bag}} :
        /\ SampleOk(bag) /\ MasksOk(bag) /\ CandidatesOk(bag)
        /\ \E s \in {[ bag  |-> bag,
                       cand |-> [i \in DOMAIN Iter.cand |-> [f |-> Iter.cand[i].f, sv |-> Iter.cand[i].sv, mask |-> CandMask(i)]],
                       sup  |-> Iter.sup,
                       q    |-> [r \in Rows |-> Clamp(Iter.grad[r + 1]) * (IF cf.w = <<>> THEN 1 ELSE cf.w[r + 1])],
                       \* the leaves as recorded: rows per value, node per value
                       rowsof |-> [v \in {Iter.leaves[i].val : i \in DOMAIN Iter.leaves} |->
                                     UNION {{Iter.leaves[i].rows[j] : j \in DOMAIN Iter.leaves[i].rows}
                                            : i \in {x \in DOMAIN Iter.leaves : Iter.leaves[x].val = v}}],
                       valof |-> [k \in {Iter.nodes[i].id : i \in DOMAIN Iter.nodes} |->
                                     (CHOOSE x \in {Iter.nodes[i] : i \in DOMAIN Iter.nodes} : x.id = k).val] ]} :
            /\ R("C02", Len(Iter.leaves) = Cardinality(DOMAIN s.rowsof), "two leaves with the same tag")
            /\ R("C02", \A i \in DOMAIN Iter.leaves : Len(Iter.leaves[i].rows) = Cardinality(s.rowsof[Iter.leaves[i].val]), "a row is twice in a leaf")
            /\ R("C02", {s.valof[k] : k \in DOMAIN s.valof} = DOMAIN s.rowsof, "values in the tree differ from the fitted leaf values")
            /\ R("C05", \A a, b \in DOMAIN s.valof : a # b => ~IsUnder(a, b), "a leaf below a leaf")
            \* rows that are the same stay together
            /\ R("C06", "bag" \notin RowSet(Iter.mixed), "not all rows are sampled")
            /\ R("C07", "cand" \notin RowSet(Iter.mixed), "rows that are the same are not all in a mask")
            /\ R("C02", "leaves" \notin RowSet(Iter.mixed), "a leaf is fitted with some of the rows that are the same")
            /\ R("C02", "oob" \notin RowSet(Iter.mixed), "out-of-bag rows that are the same are updated differently, or not all once")
            /\ R("C01", {"tp", "mp", "ap"} \cap RowSet(Iter.mixed) = {}, <<"rows that are the same have different predictions", Iter.mixed>>)
            /\ StartTree(s)
    /\ UNCHANGED tr

LeafRowsUnder(k) == UNION {smp.rowsof[smp.valof[x]] : x \in {y \in DOMAIN smp.valof : IsUnder(y, k) /\ smp.valof[y] \in DOMAIN smp.rowsof}}

\* which rows does the finished tree route below node k? (the value identifies the leaf)
TagsUnder(k) == {smp.valof[x] : x \in {y \in DOMAIN smp.valof : IsUnder(y, k)}}

Node == Min(DOMAIN open)

TSplit ==
    /\ pc = "grow" /\ open # <<>>
    /\ \E k \in {Node} :
        /\ k \notin DOMAIN smp.valof
        /\ \E L \in {LeafRowsUnder(LeftOf(k))}, Ri \in {LeafRowsUnder(RightOf(k))}, tl \in {TagsUnder(LeftOf(k))}, tt \in {TagsUnder(k)} :
           \E part \in {{i \in DOMAIN smp.cand : open[k] \cap smp.cand[i].mask = L}} :
           \E rout \in {{i \in part : \A r \in Rows : Iter.tp[r + 1] \in tt => (Iter.tp[r + 1] \in tl <=> RowLeft(smp.cand[i], smp.sup, r))}} :
           \E prob \in {{i \in rout : \A p \in 1 .. Rec.np : Iter.pp[p] \in tt =>
                            (Iter.pp[p] \in tl <=> GoesLeft(cf.ftype[smp.cand[i].f + 1], smp.cand[i], smp.sup[smp.cand[i].f + 1], Rec.probe[smp.cand[i].f + 1][p]))}} :
              /\ R("C05", tt # {}, <<"no leaf below inner node", k>>)
              /\ tt # {}
              /\ R("C01", part # {}, <<"no candidate divides the rows like node", k>>)
              /\ R("C01", rout # {}, <<"no candidate routes rows like node", k>>)
              /\ R("C17", prob # {}, <<"no candidate routes unseen rows like node", k>>)
              /\ \E c \in {IF prob # {} THEN smp.cand[Min(prob)] ELSE IF rout # {} THEN smp.cand[Min(rout)]
                           ELSE IF part # {} THEN smp.cand[Min(part)] ELSE [f |-> 0, sv |-> 0, mask |-> {}]} :
                    Split(k, c, L, Ri, Where)
    /\ UNCHANGED tr

TLeaf ==
    /\ pc = "grow" /\ open # <<>>
    /\ \E k \in {Node} :
        /\ k \in DOMAIN smp.valof
        /\ \E v \in {smp.valof[k]} :
           \E rows \in {IF v \in DOMAIN smp.rowsof THEN smp.rowsof[v] ELSE {}} : MakeLeaf(k, rows, v, Where)
    /\ UNCHANGED tr

TOob ==
    /\ pc = "grow" /\ open = <<>>
    /\ R("C02", Cardinality({Iter.oob[i].r : i \in DOMAIN Iter.oob}) = Len(Iter.oob), "an out-of-bag row is updated twice")
    /\ R("C05", Iter.ni = Cardinality(DOMAIN inner) /\ Iter.nl = Cardinality(DOMAIN leaf) /\ Iter.nn = Iter.ni + Iter.nl, <<"node counts", Iter.ni, Iter.nl, Iter.nn>>)
    /\ R("C05", Iter.maxdepth = cf.depth, "max_depth")
    /\ R("C05", DOMAIN leaf = DOMAIN smp.valof, "the tree has other leaves")
    /\ \E upd \in {[r \in {Iter.oob[i].r : i \in DOMAIN Iter.oob} |-> Iter.oob[CHOOSE i \in DOMAIN Iter.oob : Iter.oob[i].r = r].val]} :
          OutOfBag(upd, Where)
    /\ UNCHANGED tr

ProbeValue(tree, p) == LET v(f) == Rec.probe[f + 1][p] IN LeafValue(tree, Route(tree, v, 0))

\* shrinkage factors multiply, and scale the bias of the tree too
Scaled(v) == Rec.scale * (v + Rec.tbias)

TFinish ==
    /\ pc = "oob"
    /\ R("C01", \A k \in DOMAIN leaf : \A r \in leaf[k].rows : Iter.tp[r + 1] = leaf[k].val, "a training row is predicted with another leaf than it was fitted in")
    /\ R("C01", \A r \in DOMAIN oob : Iter.tp[r + 1] = oob[r], "an out-of-bag row is predicted differently than it was updated")
    /\ R("C01", \A r \in Rows : Iter.ap[r + 1] = pred[r], "predictions of the objective")
    /\ R("C01", \A r \in Rows : Iter.mp[r + 1] = Iter.ap[r + 1], "predictions of the model differ from those maintained during training")
    /\ R("C17", \A p \in 1 .. Rec.np : Iter.pp[p] = ProbeValue(CurTree, p), "prediction of the tree for an unseen row")
    /\ R("C17", \A p \in 1 .. Rec.np : Iter.mpp[p] = cf.bias + ProbeValue(CurTree, p)
                   + FoldSeq(LAMBDA t, acc : acc + ProbeValue(t, p), 0, model), "the model is not the sum of its trees")
    /\ R("C17", Iter.pb = Iter.pp /\ Iter.mpb = Iter.mpp, "a prediction depends on the earlier content of the buffer")
    /\ R("C17", Iter.back = [j \in DOMAIN Rec.back |-> Iter.mpp[Rec.back[j]]], "a prediction depends on the other rows of the batch")
    /\ R("C17", \A p \in 1 .. Rec.np : Iter.sp[p] = Scaled(Iter.pp[p]), "prediction of a scaled tree")
    /\ R("C17", \A p \in 1 .. Rec.np : Iter.ub[p] = Iter.mpp[p] - cf.bias + Scaled(Iter.pp[p]), "a model without bias is not the sum of its trees")
    /\ R("C02", Partition, "Partition")
    /\ R("C01", Consistent, "Consistent")
    /\ R("C05", WellFormed, "WellFormed")
    /\ R("C03", Objective, "Objective")
    /\ FinishTree /\ UNCHANGED tr

TAccept ==
    /\ Rec.kind = "boost" /\ pc = "done"
    /\ R("C01", PredConsistent, "PredConsistent")
    /\ R("C05", it = Rec.niter, "number of trees")
    /\ R("C17", Rec.none = [p \in 1 .. Rec.np |-> cf.bias], "a model without trees does not predict its bias")
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pc' = "end" /\ UNCHANGED <<cf, it, smp, open, inner, leaf, oob, pred, model, tr>>

---------------------------------------------------------------------------
(* A run of Booster::train: only the calls that the objective receives are   *)
(* known, not the trees.                                                     *)
TrainTree(i) ==
    LET g == Rec.iters[i]
        where == <<"train", Rec.tr, Rec.size, "tree", i>>
        used == UNION {RowSet(g.leaves[j].rows) : j \in DOMAIN g.leaves}
        all == 0 .. (Rec.n - 1)
        oobs == {g.oob[j].r : j \in DOMAIN g.oob}
    IN /\ Req("C02", where, FoldSeq(LAMBDA x, a : a + Len(x.rows), 0, g.leaves) = Cardinality(used), "a row is in two leaves")
       /\ Req("C02", where, used \subseteq all /\ oobs = all \ used /\ Len(g.oob) = Cardinality(oobs), "not exactly the out-of-bag rows are updated")
       /\ Req("C02", where, \A j \in DOMAIN g.leaves : g.leaves[j].rows # <<>>, "an empty leaf")
       /\ Req("C05", where, 1 <= Len(g.leaves) /\ Len(g.leaves) <= Pow2(Rec.depth), "number of leaves")
       /\ Req("C05", where, Len(g.leaves) > 1 => \A j \in DOMAIN g.leaves : Len(g.leaves[j].rows) >= Rec.minex, "a leaf is too small")
       /\ Req("C02", where, Rec.bagging \/ oobs = {}, "out-of-bag rows without bagging")
TAcceptTrain ==
    /\ Rec.kind = "train" /\ pc = "idle"
    /\ Req("C05", <<"train", Rec.tr>>, Len(Rec.iters) = Rec.niter, "number of trees")
    /\ Req("C05", <<"train", Rec.tr>>, Rec.inits = 1 /\ Rec.early = 0, "the objective is initialized once, then updated before every tree")
    /\ \A i \in DOMAIN Rec.iters : TrainTree(i)
    /\ Req("C01", <<"train", Rec.tr>>, Rec.mp = Rec.ap, "predictions of the model differ from those maintained during training")
    /\ Req("C01", <<"train", Rec.tr>>,
           LET delta(i, r) == LET g == Rec.iters[i] IN
                   FoldSeq(LAMBDA x, a : IF \E j \in DOMAIN x.rows : x.rows[j] = r THEN a + x.val ELSE a, 0, g.leaves)
                 + FoldSeq(LAMBDA x, a : IF x.r = r THEN a + x.val ELSE a, 0, g.oob)
           IN \A r \in 0 .. (Rec.n - 1) :
                 Rec.mp[r + 1] = Rec.bias + FoldSet(LAMBDA i, a : a + delta(i, r), 0, DOMAIN Rec.iters), "predictions are not the bias plus the leaf values")
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pc' = "end" /\ UNCHANGED <<cf, it, smp, open, inner, leaf, oob, pred, model, tr>>

(* The objectives of the crate: only the final predictions, in millionths of the largest value (float rounding). *)
TAcceptReal ==
    /\ Rec.kind = "real" /\ pc = "idle"
    /\ Req("C01", <<"real", Rec.tr, Rec.size>>, Len(Rec.mp) = Len(Rec.ap) /\ \A r \in DOMAIN Rec.ap : Rec.mp[r] - Rec.ap[r] \in -12 .. 12, "predictions of the model differ from those maintained during training")
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pc' = "end" /\ UNCHANGED <<cf, it, smp, open, inner, leaf, oob, pred, model, tr>>

(* Many rows: the sizes of the leaves, which rows were not updated once per tree, and which predictions differ. *)
TAcceptBulk ==
    /\ Rec.kind = "bulk" /\ pc = "idle"
    /\ \E w \in {<<"bulk", Rec.tr, Rec.size>>} :
        /\ Req("C05", w, Len(Rec.iters) = Rec.niter, "number of trees")
        /\ \A k \in DOMAIN Rec.iters : LET g == Rec.iters[k] IN
            /\ Req("C02", w, g.odd = <<>>, <<"tree", k, "rows that are not updated once", g.odd>>)
            /\ Req("C02", w, FoldSeq(+, 0, g.leaves) = g.bag /\ g.bag + g.oob = Rec.n, <<"tree", k, "rows in leaves", g.leaves, "sampled", g.bag, "out of bag", g.oob, "of", Rec.n>>)
            /\ Req("C02", w, \A j \in DOMAIN g.leaves : g.leaves[j] > 0, <<"tree", k, "an empty leaf">>)
            /\ Req("C06", w, IF Rec.efn = Rec.efd THEN g.bag = Rec.n ELSE RoundOk(g.bag, Rec.n, Rec.efn, Rec.efd), <<"tree", k, "size of the bag", g.bag, "of", Rec.n>>)
            /\ Req("C05", w, 1 <= Len(g.leaves) /\ Len(g.leaves) <= Pow2(Rec.depth), <<"tree", k, "number of leaves", Len(g.leaves)>>)
            /\ Req("C05", w, Len(g.leaves) > 1 => \A j \in DOMAIN g.leaves : g.leaves[j] >= Rec.minex, <<"tree", k, "a leaf is too small", g.leaves>>)
        /\ Req("C01", w, Rec.differ = <<>> /\ Rec.rdiffer = <<>>, <<"predictions of the model differ from those maintained during training for rows", Rec.differ, Rec.rdiffer>>)
        /\ Req("C01", w, Rec.sum = <<>>, <<"predictions are not the bias plus the leaf values for rows", Rec.sum>>)
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pc' = "end" /\ UNCHANGED <<cf, it, smp, open, inner, leaf, oob, pred, model, tr>>

TPanic == Rec.kind = "panic" /\ pc = "idle" /\ PrintT(<<"REJECT", <<"panic", Rec.tr>>, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED tvars

TNext == TStart \/ TSplit \/ TLeaf \/ TOob \/ TFinish \/ TAccept \/ TAcceptTrain \/ TAcceptReal \/ TAcceptBulk \/ TPanic
=============================================================================
