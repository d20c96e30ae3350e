------------------------------ MODULE BlendMC ------------------------------
(* Candidates arrive one after the other, each with its own labels; a blend *)
(* of those present is asked for at any time.                               *)
EXTENDS Blend, SequencesExt, CSV, IOUtils, Json

CONSTANTS MaxEntries, Lean

VARIABLES es, blend
vars == <<es, blend>>

Names == { <<>>, <<"a", "b">>, <<"b", "a">>, <<"a", "c">>, <<"a", "b", "c">> }
V(i, j)  == <<R(i, 8), R(8 - i, 8)>>
V3(i)    == <<R(i, 8), R(1, 4), R(6 - i, 8)>>
Vecs(n)  == IF n = 2 THEN { V(1, 0), V(6, 0), <<R(-1, 4), R(5, 4)>> } ELSE { V3(1), V3(4) }
Entry(n, nm) ==
    { [kind |-> "vector", names |-> nm, W |-> <<v>>, risk |-> <<>>, pick |-> <<>>] : v \in Vecs(n) }
    \cup (IF n = 3 \/ nm = <<"a", "c">> THEN {} ELSE
    { [kind |-> "frontier", names |-> nm, W |-> << V(2, 0), V(5, 0), V(7, 0) >>, risk |-> <<R(2, 8), R(1, 8), R(r, 8)>>, pick |-> p]
        : r \in {1, 3}, p \in {<<>>, << <<0>> >>, << <<2>> >>, << <<0, 1>> >>} })
Wide     == UNION { Entry(2, nm) : nm \in {x \in Names : Len(x) \in {0, 2}} } \cup UNION { Entry(3, nm) : nm \in {<<>>, <<"a", "b", "c">>} }
Arrivals == IF Lean THEN { e \in Entry(2, <<"a", "b">>) \cup Entry(2, <<"b", "a">>) : e.kind = "vector" \/ (e.pick = <<>> /\ REq(e.risk[3], R(1, 8))) } ELSE Wide
NoBlend == [how |-> "none", ws |-> <<>>, L |-> 0]
Init == es = <<>> /\ blend = NoBlend
Arrive == /\ blend = NoBlend /\ Len(es) < MaxEntries
          /\ \E e \in Arrivals : es' = Append(es, e)
          /\ UNCHANGED blend
WeightSets(n) == { <<>>, << [v |-> [k \in 1..n |-> R(k, 1)], names |-> <<>>] >>, << [v |-> [k \in 1..n |-> R(k - 1, 4)], names |-> <<>>] >>,
                   << [v |-> [k \in 1..n |-> R(k - 2, 1)], names |-> <<>>] >>, << [v |-> [k \in 1..n + 1 |-> R(1, 2)], names |-> <<>>] >> }
Ask(b) == /\ blend' = b /\ UNCHANGED es
          /\ CSVWrite("%1$s", <<ToJson([es |-> es, how |-> b.how, ws |-> b.ws, L |-> b.L])>>, IOEnv.VEMIT)
AskMean  == /\ blend = NoBlend /\ es # <<>>
            /\ \E ws \in WeightSets(Len(es)) : Ask([how |-> "mean", ws |-> ws, L |-> 0])
AskStack == /\ blend = NoBlend /\ es # <<>>
            /\ \E L \in 1..MaxEntries + 1 : Ask([how |-> "stack", ws |-> <<>>, L |-> L])
Next == Arrive \/ AskMean \/ AskStack

Sound == es # <<>> /\ SameAssets(es) /\ \A k \in 1..Len(es) : Picks(es[k]) # {}
Reads == Readings(es, Base(es))
\* the mean lies between the candidates, asset by asset, and keeps a common budget
Between == (Sound /\ blend.how = "mean" /\ GoodWeights(blend.ws, Len(es), <<>>)) =>
  \A X \in Reads : LET m == Mean(X, Share(blend.ws, Len(X), <<>>)) IN
    /\ \A i \in 1..Len(m) : RLe(VMin([k \in 1..Len(X) |-> X[k][i]]), m[i]) /\ RLe(m[i], VMax([k \in 1..Len(X) |-> X[k][i]]))
    /\ REq(RSum(m), 1)
\* relabelling the assets of an entry does not move the mean
Swap(e) == IF e.names = <<>> \/ Dim(e) # 2 THEN e ELSE [e EXCEPT !.names = <<e.names[2], e.names[1]>>, !.W = [k \in 1..Len(e.W) |-> <<e.W[k][2], e.W[k][1]>>]]
Relabel == (Sound /\ blend.how = "mean") =>
  Readings([k \in 1..Len(es) |-> IF k = 1 THEN es[k] ELSE Swap(es[k])], Base(es)) = Reads
\* the certificate: no mixture beats w by more than its gap, and some vertex direction realises it
Grid(n) == IF n = 2 THEN {<<R(i, 4), R(4 - i, 4)>> : i \in 0..4}
           ELSE {<<R(i, 3), R(j, 3), R(3 - i - j, 3)>> : i \in 0..3, j \in 0..3}
Mixes(n) == {w \in Grid(n) : \A k \in 1..n : RGe(w[k], 0)}
Dual == (Sound /\ blend.how = "stack" /\ GoodFolds(blend.L, Len(es))) =>
  \A X \in Reads : \A w \in Mixes(Len(X)) :
    LET g == Gap(X, blend.L, w) c == Crit(X, blend.L, w) IN
    /\ RGe(g, 0)
    /\ \A v \in Mixes(Len(X)) : RGe(Crit(X, blend.L, v), RSub(c, g))
FoldsOk == (blend.how = "stack" /\ GoodFolds(blend.L, Len(es))) =>
  LET n == Len(es) IN /\ \A k \in 1..blend.L : Fold(n, blend.L, k) # {}
                      /\ UNION {Fold(n, blend.L, k) : k \in 1..blend.L} = 1..n
\* leave-one-out folds of identical candidates are blended into that candidate
Alone == (Sound /\ blend.how = "stack" /\ GoodFolds(blend.L, Len(es))) =>
  \A X \in Reads : (\A k \in 1..Len(X) : VEq(X[k], X[1])) => \A w \in Mixes(Len(X)) : VEq(Mean(X, w), X[1])
=============================================================================
