-------------------------------- MODULE Prices --------------------------------
(* Prices observed one row at a time become returns; gaps ("nan") are         *)
(* treated as the caller asked; distributions are built from scenarios,       *)
(* moments, projected drivers or a posterior.                                 *)
EXTENDS Paths, Moments

Known(x)      == RNum(x)
GoodPrice(x)  == RNum(x) /\ RGt(x, 0)
GoodPrices(P) == Len(P) >= 2 /\ Len(P[1]) >= 1 /\ \A t \in 1..Len(P) : Len(P[t]) = Len(P[1]) /\ \A j \in 1..Len(P[t]) : GoodPrice(P[t][j])
Ratio(a, b, kind) == IF kind = "log" THEN RLn(RDiv(b, a)) ELSE RSub(RDiv(b, a), 1)
Returns(P, kind) == TLCEval([t \in 1..(Len(P) - 1) |-> [j \in 1..Len(P[1]) |-> Ratio(P[t][j], P[t + 1][j], kind)]])
\* with gaps: a return is known when both its prices are
RawReturns(P, kind) == TLCEval([t \in 1..(Len(P) - 1) |-> [j \in 1..Len(P[1]) |->
                          IF Known(P[t][j]) /\ Known(P[t + 1][j]) THEN Ratio(P[t][j], P[t + 1][j], kind) ELSE "nan"]])
Before(Rw, t, j) == {s \in 1..t : Known(Rw[s][j])}
After(Rw, t, j)  == {s \in t..Len(Rw) : Known(Rw[s][j])}
Highest(S)    == CHOOSE x \in S : \A y \in S : y <= x
Lowest(S)     == CHOOSE x \in S : \A y \in S : x <= y
FilledAt(Rw, t, j, how) ==
  IF Known(Rw[t][j]) THEN Rw[t][j]
  ELSE IF how = "ffill" /\ Before(Rw, t, j) # {} THEN Rw[Highest(Before(Rw, t, j))][j]
  ELSE IF how = "bfill" /\ After(Rw, t, j) # {} THEN Rw[Lowest(After(Rw, t, j))][j]
  ELSE R(0, 1)
Complete(Rw, t) == \A j \in 1..Len(Rw[t]) : Known(Rw[t][j])
KeptRows(Rw, how) == IF how = "drop" THEN SelectSeq([t \in 1..Len(Rw) |-> t], LAMBDA t : Complete(Rw, t)) ELSE [t \in 1..Len(Rw) |-> t]
Filled(P, kind, how) ==
  LET Rw == RawReturns(P, kind) rows == KeptRows(Rw, how) IN
  TLCEval([k \in 1..Len(rows) |-> [j \in 1..Len(P[1]) |-> FilledAt(Rw, rows[k], j, how)]])

\* ---- what a distribution holds ----------------------------------------------------
AllNum(v)      == \A i \in 1..Len(v) : RNum(v[i])
Rect(M, n)     == \A t \in 1..Len(M) : Len(M[t]) = n
MassesOk(p, T) == Len(p) = T /\ AllNum(p) /\ (\A i \in 1..T : RLe(0, p[i])) /\ RGt(RSum(p), 0)
Normed(p)      == VScale(RDiv(1, RSum(p)), p)
\* a: [mu, cov, R, p : <<>> or <<value>>], labs: the label lists the inputs carry
Consistent(labs) == \A i, j \in 1..Len(labs) : labs[i] = labs[j]
Size(a)        == IF a.R # <<>> THEN Len(a.R[1][1]) ELSE IF a.mu # <<>> THEN Len(a.mu[1]) ELSE Len(a.cov[1])
Buildable(a, labs) ==
  /\ a.R # <<>> \/ a.mu # <<>> \/ a.cov # <<>>
  /\ a.R # <<>> => Len(a.R[1]) > 0 /\ Len(a.R[1][1]) > 0 /\ IsMat(a.R[1], Len(a.R[1]), Len(a.R[1][1]))
  /\ a.mu # <<>> => IsVec(a.mu[1], Size(a))
  /\ a.cov # <<>> => IsMat(a.cov[1], Size(a), Size(a))
  /\ a.R # <<>> /\ a.p # <<>> => MassesOk(a.p[1], Len(a.R[1]))
  /\ Consistent(labs)
  /\ \A i \in 1..Len(labs) : Len(labs[i]) = Size(a)
Mass(a)        == IF a.p = <<>> THEN Uniform(Len(a.R[1])) ELSE Normed(a.p[1])
MuOf(a)        == IF a.mu # <<>> THEN a.mu ELSE IF a.R = <<>> THEN <<>> ELSE <<MeanP(a.R[1], Mass(a))>>
CovOf(a)       == IF a.cov # <<>> THEN a.cov ELSE IF a.R = <<>> THEN <<>> ELSE <<CovP(a.R[1], Mass(a))>>
=============================================================================
