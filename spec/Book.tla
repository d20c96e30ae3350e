-------------------------------- MODULE Book --------------------------------
(***************************************************************************)
(* Portfolios on scenarios: matching weights to assets by label, the       *)
(* figures of a portfolio under one distribution, and linear stresses.     *)
(***************************************************************************)
EXTENDS TailRisk, Prob

\* ---- labels ---------------------------------------------------------------
\* wl / cols: labels of the weights / of the scenario columns, <<>> when absent
Distinct(s)          == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
SetOf(s)             == {s[i] : i \in 1..Len(s)}
SameLabels(a, b)     == Len(a) = Len(b) /\ Distinct(a) /\ Distinct(b) /\ SetOf(a) = SetOf(b)
Matchable(wl, cols, rows, n) == IF wl = <<>> \/ cols = <<>> THEN rows = n ELSE SameLabels(wl, cols)
At(v, wl, lab)       == v[CHOOSE k \in 1..Len(wl) : wl[k] = lab]
Aligned(v, wl, cols) == IF wl = <<>> \/ cols = <<>> THEN v
                        ELSE TLCEval([i \in 1..Len(cols) |-> At(v, wl, cols[i])])

\* ---- figures of profits X with masses p ------------------------------------
MeanOk(x, X, p, sc)       == RNear(x, Mean(X, p), RMul(Tol10, sc))
VolOk(x, X, p, sc)        == RLe(0, x) /\ RNear(RSq(x), RMax(0, Var2(X, p)), RMul(Tol10, RSq(sc)))
VarOk(x, X, p, a, sc)     == \E k \in QuantileIdx(X, p, a, Tol12) : RNear(x, RNeg(X[k]), RMul(Tol10, sc))
CvarOk(x, X, p, a, sc)    == RNear(x, CVaR(X, p, a), RMul(Tol10, RDiv(sc, a)))
EnsOk(x, p)               == RClose(x, Ens(p), Tol8)
\* f = [ret, sd, var, cvar, ens]; XX are the profits used for the tail figures
Figures(pre, f, X, XX, p, a, sc) ==
  {<<pre \o "-return", MeanOk(f.ret, X, p, sc)>>, <<pre \o "-volatility", VolOk(f.sd, X, p, sc)>>,
   <<pre \o "-var", VarOk(f.var, XX, p, a, sc)>>, <<pre \o "-cvar", CvarOk(f.cvar, XX, p, a, sc)>>,
   <<pre \o "-effective-scenarios", EnsOk(f.ens, p)>>}
Scale(Rm, w) == RMax(1, RMul(VAbsSum(w), VMax(TLCEval([t \in 1..Len(Rm) |-> VMax(TLCEval([i \in 1..Len(Rm[t]) |-> RAbs(Rm[t][i])]))]))))
TailRows(Rm, p, demean) == IF demean THEN Demeaned(Rm, p) ELSE Rm

\* ---- masses ---------------------------------------------------------------
Resolve(m, n) == IF NearOne(m) THEN m ELSE Normal(m)
DecayMasses(n, hl) == Normal(TLCEval([t \in 1..n |-> RExp(RMul(RDiv(Ln2, hl), R(t - n, 1)))]))
KernelMasses(v, h, c) == Normal(KernelW(v, h, c))

\* ---- linear stress: R -> k R B' + c -------------------------------------------
Stressed(Rm, B, k, c) ==
  LET X1 == IF B = <<>> THEN Rm ELSE TLCEval([t \in 1..Len(Rm) |-> MV(B, Rm[t])])
      X2 == IF k = <<>> THEN X1 ELSE MScale(k[1], X1)
  IN  IF c = <<>> THEN X2 ELSE TLCEval([t \in 1..Len(X2) |-> VAdd(X2[t], c)])
=============================================================================
