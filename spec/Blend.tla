------------------------------- MODULE Blend -------------------------------
(* Blending sample portfolios.  An entry is one portfolio, a matrix of      *)
(* portfolios (columns) or a frontier from which one column is picked; the  *)
(* assets may be labelled.  Two blends: the weighted mean, and exposure     *)
(* stacking, the point of the convex hull least under a fold-wise criterion.*)
EXTENDS Frontier

\* entry: [kind, names (<<>> unlabelled), W (columns), risk, pick (<<>> or <<python column numbers>> in a 1-tuple)]
Dim(e)    == Len(e.W[1])
At0(m, c) == IF c < 0 THEN m + c + 1 ELSE c + 1
Picks(e)  == LET m == Len(e.W) IN
  IF e.kind # "frontier" THEN {[k \in 1..m |-> k]}
  ELSE IF e.pick = <<>> THEN {<<c>> : c \in ArgMin(1..m, e.risk)}
  ELSE IF Len(e.pick[1]) = 1 /\ At0(m, e.pick[1][1]) \in 1..m THEN {<<At0(m, e.pick[1][1])>>}
  ELSE {}

Labelled(es)   == {k \in 1..Len(es) : es[k].names # <<>>}
NameSet(e)     == {e.names[i] : i \in 1..Len(e.names)}
SameAssets(es) == /\ \A j, k \in 1..Len(es) : Dim(es[j]) = Dim(es[k])
                  /\ \A j, k \in Labelled(es) : NameSet(es[j]) = NameSet(es[k])
SameOrder(es)  == \A j, k \in Labelled(es) : es[j].names = es[k].names
Base(es)       == IF Labelled(es) = {} THEN <<>> ELSE es[CHOOSE k \in Labelled(es) : \A j \in Labelled(es) : k <= j].names
Pos(names, x)  == CHOOSE i \in 1..Len(names) : names[i] = x
Aligned(names, base, v) == IF base = <<>> \/ names = <<>> THEN v
                           ELSE TLCEval([i \in 1..Len(base) |-> v[Pos(names, base[i])]])
\* every way of reading the entries as one list of columns (ties of the least risk leave a choice)
RECURSIVE Readings(_, _)
Readings(es, base) ==
  IF es = <<>> THEN {<<>>}
  ELSE LET e == Head(es) IN
       {[k \in 1..Len(p) |-> Aligned(e.names, base, e.W[p[k]])] \o r : p \in Picks(e), r \in Readings(Tail(es), base)}

RECURSIVE Count(_)
Count(es) == IF es = <<>> THEN 0 ELSE (IF Head(es).kind = "frontier" THEN 1 ELSE Len(Head(es).W)) + Count(Tail(es))

\* weights: <<>> or <<[v, names]>>; samples named by snames (<<>> when they have no names)
Covers(w, snames) == w.names = <<>> \/ snames = <<>> \/ \A i \in 1..Len(snames) : \E j \in 1..Len(w.names) : w.names[j] = snames[i]
Exactly(w, snames) == w.names = <<>> \/ snames = <<>> \/ Len(w.names) = Len(snames)
Lined(w, snames)  == IF w.names = <<>> \/ snames = <<>> THEN w.v
                     ELSE TLCEval([i \in 1..Len(snames) |-> w.v[Pos(w.names, snames[i])]])
GoodWeights(ws, n, snames) ==
  ws = <<>> \/ (/\ Covers(ws[1], snames)
                /\ LET v == Lined(ws[1], snames) IN
                   /\ Len(v) = n /\ \A i \in 1..n : RNum(v[i])
                   /\ \A i \in 1..n : RGe(v[i], 0)
                   /\ RGt(RSum(v), 0))
Share(ws, n, snames) == IF ws = <<>> THEN Const(n, R(1, n))
                        ELSE LET v == Lined(ws[1], snames) IN VScale(RDiv(1, RSum(v)), v)
RECURSIVE Combine(_, _)
Combine(X, w) == IF Len(X) = 1 THEN VScale(w[1], X[1]) ELSE VAdd(VScale(w[1], X[1]), Combine(Tail(X), Tail(w)))
Mean(X, w)    == TLCEval(Combine(X, w))

\* folds: L blocks of n \div L consecutive samples, the last takes the rest
FoldOf(n, L, j) == LET s == n \div L k == ((j - 1) \div s) + 1 IN IF k > L THEN L ELSE k
Fold(n, L, k)   == {j \in 1..n : FoldOf(n, L, j) = k}
FoldMean(X, L, k) == LET n == Len(X) S == Fold(n, L, k) IN
  Mean(X, [j \in 1..n |-> IF j \in S THEN R(1, Cardinality(S)) ELSE R(0, 1)])
\* what the blend w of the samples outside fold k misses of the mean of fold k
Miss(X, L, w, k) == VSub(Mean(X, [j \in 1..Len(X) |-> IF FoldOf(Len(X), L, j) = k THEN R(0, 1) ELSE w[j]]), FoldMean(X, L, k))
Misses(X, L, w)  == TLCEval([k \in 1..L |-> Miss(X, L, w, k)])
Crit(X, L, w)    == LET m == Misses(X, L, w) IN RSum([k \in 1..L |-> RDot(m[k], m[k])])
Grad(X, L, w)    == LET m == Misses(X, L, w) n == Len(X) IN
  TLCEval([j \in 1..n |-> RMul(2, RSum([k \in 1..L |-> IF FoldOf(n, L, j) = k THEN R(0, 1) ELSE RDot(X[j], m[k])]))])
\* convexity: Crit(v) >= Crit(w) - Gap(w) for every v of the simplex
Gap(X, L, w)     == LET g == Grad(X, L, w) IN RSub(RDot(g, w), VMin(g))
OnSimplex(w, n, t) == /\ Len(w) = n /\ \A j \in 1..n : RNum(w[j]) /\ RGe(w[j], RNeg(t))
                      /\ RNear(RSum(w), 1, t)
Size(X)          == RMul(Len(X), VMax([j \in 1..Len(X) |-> RAdd(R(1, 1), RDot(X[j], X[j]))]))
\* v = X wit for a mixture wit no worse than opt, whose own gap is small
Stacked(X, L, v, wit, opt) ==
  LET n == Len(X) t == RMul(R(1, 100000), Size(X)) IN
  /\ OnSimplex(wit, n, Tol8) /\ OnSimplex(opt, n, Tol8)
  /\ VNear(Mean(X, wit), v, R(1, 1000000))
  /\ RLe(Crit(X, L, wit), RAdd(Crit(X, L, opt), t))
Certified(X, L, opt) == /\ OnSimplex(opt, Len(X), Tol8) /\ RLe(Gap(X, L, opt), RMul(R(1, 1000000), Size(X)))
GoodFolds(L, n) == 2 <= L /\ L <= n
=============================================================================
