------------------------------ MODULE TailRisk ------------------------------
(***************************************************************************)
(* Risk of a discrete distribution: outcomes X (profits) with masses p.    *)
(* Quantile, VaR and CVaR are defined declaratively; TailMC.tla shows that *)
(* the sweep "take the worst outcomes until the tail mass is used up, the  *)
(* last one only for the mass still needed" computes exactly these values. *)
(***************************************************************************)
EXTENDS Lin, TLC

MassIf(p, X, P(_))    == RSum([i \in 1..Len(X) |-> IF P(X[i]) THEN p[i] ELSE 0])
MassBelow(X, p, x)    == MassIf(p, X, LAMBDA y : RLt(y, x))
MassUpTo(X, p, x)     == MassIf(p, X, LAMBDA y : RLe(y, x))
\* x is the a-quantile; eps > 0 forgives rounding of masses that meet a exactly
IsQuantile(X, p, a, x, eps) ==
  /\ RLt(RSub(MassBelow(X, p, x), eps), a)
  /\ RLe(a, RAdd(MassUpTo(X, p, x), eps))
QuantileIdx(X, p, a, eps) == {k \in 1..Len(X) : IsQuantile(X, p, a, X[k], eps)}
Quantile(X, p, a)  == X[CHOOSE k \in 1..Len(X) : IsQuantile(X, p, a, X[k], 0)]

ShortfallAt(X, p, a, x) ==    \* average of the worst a-tail, losses positive
  RSub(RDiv(RDot(p, [i \in 1..Len(X) |-> RMax(RSub(x, X[i]), 0)]), a), x)
VaR(X, p, a)  == RNeg(Quantile(X, p, a))
CVaR(X, p, a) ==              \* the quantile may be missed by rounding of p: any near-quantile gives the same value
  LET ks == QuantileIdx(X, p, a, Tol12) IN
  IF ks = {} THEN "nan" ELSE ShortfallAt(X, p, a, X[CHOOSE k \in ks : TRUE])

Mean(X, p) == RDot(p, X)
Var2(X, p) == RSub(RDot(p, [i \in 1..Len(X) |-> RSq(X[i])]), RSq(Mean(X, p)))   \* masses sum to one

Pnl(Rm, w)      == TLCEval([t \in 1..Len(Rm) |-> RDot(Rm[t], w)])
Demeaned(Rm, p) == LET m == TLCEval([j \in 1..Len(Rm[1]) |-> RDot(p, Col(Rm, j))])
                   IN TLCEval([t \in 1..Len(Rm) |-> VSub(Rm[t], m)])
Uniform(n)      == TLCEval([t \in 1..n |-> R(1, n)])
=============================================================================
