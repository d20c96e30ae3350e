-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Random walks of risk drivers: every step adds one historical scenario    *)
(* of positive probability, jointly across drivers; repricing of totals;    *)
(* wealth, running peak and drawdown along a path; horizon scaling and the  *)
(* log / simple return conversions.                                         *)
(***************************************************************************)
EXTENDS Book, FiniteSets

Rows(H, p)   == {i \in 1..Len(H) : RGt(p[i], 0)}
RECURSIVE Sums(_, _, _)      \* totals reachable in h steps
Sums(H, p, h) == IF h = 0 THEN {VScale(R(0, 1), H[1])}
                 ELSE TLCEval({VAdd(x, H[i]) : x \in Sums(H, p, h - 1), i \in Rows(H, p)})
RECURSIVE Chance(_, _, _, _) \* probability that h independent steps total x
Chance(H, p, h, x) == IF h = 0 THEN IF \A j \in 1..Len(x) : RZero(x[j]) THEN R(1, 1) ELSE R(0, 1)
                      ELSE RSum([i \in 1..Len(H) |-> IF RGt(p[i], 0) THEN RMul(p[i], Chance(H, p, h - 1, VSub(x, H[i]))) ELSE R(0, 1)])

\* ---- wealth along a path of portfolio profits (relative to one invested) ----
RECURSIVE PeakTo(_, _)
PeakTo(W, t) == IF t = 0 THEN R(1, 1) ELSE RMax(PeakTo(W, t - 1), W[t])
Down(W, t)   == LET k == PeakTo(W, t) IN RDiv(RSub(k, W[t]), k)
MaxDown(W)   == VMax(TLCEval([t \in 1..Len(W) |-> Down(W, t)]))
Wealths(path, w) == TLCEval([t \in 1..Len(path) |-> RAdd(1, RDot(path[t], w))])

\* order statistics of a finite sample: any value between the two neighbours of position (n-1)c
Rank(s, x)       == Cardinality({i \in 1..Len(s) : RLt(s[i], x)})          \* number strictly below
RankLe(s, x)     == Cardinality({i \in 1..Len(s) : RLe(s[i], x)})
SampleQuantile(v, s, c, tol) ==
  LET pos == RMul(c, Len(s) - 1)
      lo  == RToInt(RFloor(RAdd(pos, Tol10)))            \* zero based
      hi  == LET f == RToInt(RFloor(RSub(pos, Tol10))) IN IF f + 1 > lo THEN f + 1 ELSE lo
      h2  == IF hi > Len(s) - 1 THEN Len(s) - 1 ELSE hi
      l2  == LET f == RToInt(RFloor(RSub(pos, Tol10))) IN IF f < 0 THEN 0 ELSE IF f < lo THEN f ELSE lo
  IN  \E a, b \in 1..Len(s) : /\ Rank(s, s[a]) <= l2 /\ RankLe(s, s[a]) > l2     \* s[a] is the l2-th order statistic
                              /\ Rank(s, s[b]) <= h2 /\ RankLe(s, s[b]) > h2
                              /\ RLeT(s[a], v, tol) /\ RLeT(v, s[b], tol)

\* ---- conversions ------------------------------------------------------------
ToSimple(x)  == RSub(RExp(x), 1)
ToLog(x)     == RLn(RAdd(1, x))
SimpleMean(m, C) == TLCEval([i \in 1..Len(m) |-> RSub(RExp(RAdd(m[i], RDiv(C[i][i], 2))), 1)])
SimpleCov(m, C)  == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |->
   RMul(RExp(RAdd(RAdd(m[i], m[j]), RDiv(RAdd(C[i][i], C[j][j]), 2))), RSub(RExp(C[i][j]), 1))]])
LogCov(m, C)     == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |->
   RLn(RAdd(1, RDiv(C[i][j], RMul(RAdd(1, m[i]), RAdd(1, m[j])))))]])
LogMean(m, C)    == LET L == LogCov(m, C) IN TLCEval([i \in 1..Len(m) |-> RSub(RLn(RAdd(1, m[i])), RDiv(L[i][i], 2))])

\* ---- pricing functions of one instrument: theta tau + delta y + gamma y^2 / 2, or exp(y) - 1 ----
Price(f, y) == IF f.k = "exp" THEN ToSimple(y)
               ELSE RAdd(RMul(f.theta, f.tau), RAdd(RMul(f.delta, y), RDiv(RMul(f.gamma, RSq(y)), 2)))
\* several drivers: a linear basket whose sensitivity to its k-th driver is k delta
Joint(f, ys) == IF Len(ys) = 1 THEN Price(f, ys[1]) ELSE RMul(f.delta, RSum([k \in 1..Len(ys) |-> RMul(k, ys[k])]))
=============================================================================
