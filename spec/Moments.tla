------------------------------- MODULE Moments -------------------------------
(* Estimated means and covariances of a return sample X (rows are dates):    *)
(* weighted sample moments, linear shrinkage and its published intensities,  *)
(* the exponential recursion, factor plus sparse covariance, the fixed       *)
(* points of the robust estimators, and the repair of indefinite matrices.   *)
EXTENDS TailRisk

MeanP(X, p)   == TLCEval([j \in 1..Len(X[1]) |-> RDot(p, Col(X, j))])
Centred(X, m) == TLCEval([t \in 1..Len(X) |-> VSub(X[t], m)])
\* second moments: sum of w[t] x[t] x[t]'
Second(X, w)  == LET C == TLCEval([j \in 1..Len(X[1]) |-> Col(X, j)])
                     W == TLCEval([j \in 1..Len(X[1]) |-> [t \in 1..Len(X) |-> RMul(w[t], C[j][t])]])
                 IN  TLCEval([i \in 1..Len(C) |-> [j \in 1..Len(C) |-> RDot(W[i], C[j])]])
CovP(X, p)    == Second(Centred(X, MeanP(X, p)), p)
Trace(M)      == RSum([i \in 1..Len(M) |-> M[i][i]])
Fro2(M)       == RSum([i \in 1..Len(M) |-> RDot(M[i], M[i])])
MaxAbs(M)     == VMax([i \in 1..Len(M) |-> VMax([j \in 1..Len(M[i]) |-> RAbs(M[i][j])])])
MNear(A, B, t) == /\ Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], t)
Clip01(x)     == RMax(0, RMin(1, x))
Mix(d, F, S)  == MAdd(MScale(d, F), MScale(RSub(1, d), S))
VMix(d, f, s) == VAdd(VScale(d, f), VScale(RSub(1, d), s))

\* ---- shrinkage of the mean ----------------------------------------------------
\* Bayes-Stein: weight of the minimum-variance mean; S is regularised by 1e-8
JorionParts(mu, S, T) ==
  LET n == Len(mu) A == MAdd(S, MScale(Tol8, Ident(n)))
      a == Solve(A, Const(n, R(1, 1))) g == RDiv(RDot(a, mu), RSum(a))
      d == VSub(mu, Const(n, g))
  IN  [g |-> g, d |-> d, v |-> Clip01(RDiv(R(n + 2, 1), RAdd(R(n + 2, 1), RMul(T, RDot(d, Solve(A, d))))))]
Jorion(mu, S, T) == LET k == JorionParts(mu, S, T) IN VSub(mu, VScale(k.v, k.d))
\* James-Stein: weight of the sample mean against the target
JamesStein(d, S, T) == LET q == RMul(T, RDot(d, Solve(S, d))) k == RMax(0, R(Len(d) - 2, 1)) IN
                       IF RLe(q, 0) THEN R(0, 1) ELSE RMax(0, RSub(1, RDiv(k, q)))
GrandMean(mu) == Const(Len(mu), RDiv(RSum(mu), Len(mu)))

\* ---- linear shrinkage of the covariance -----------------------------------------
ScaledId(S)   == MScale(RDiv(Trace(S), Len(S)), Ident(Len(S)))
\* asymptotic variances of the sample covariances, Ledoit and Wolf
PiMat(X, S)   == LET T == Len(X) N == Len(S) IN
                 TLCEval([i \in 1..N |-> [j \in 1..N |->
                    RDiv(RSum([t \in 1..T |-> RSq(RSub(RMul(X[t][i], X[t][j]), S[i][j]))]), T)]])
MSum(M)       == RSum([i \in 1..Len(M) |-> RSum(M[i])])
LwIdentity(X, S) == LET g == Fro2(MSub(S, ScaledId(S))) IN
                    IF RZero(g) THEN R(0, 1) ELSE Clip01(RDiv(RDiv(MSum(PiMat(X, S)), Len(X)), g))
Sds(S)        == TLCEval([i \in 1..Len(S) |-> RSqrt(S[i][i])])
AvgCorr(S, s) == LET n == Len(S) IN
                 IF n = 1 THEN R(0, 1)
                 ELSE RDiv(RSum([i \in 1..n |-> RSum([j \in 1..n |-> IF i = j THEN R(0, 1) ELSE RDiv(S[i][j], RMul(s[i], s[j]))])]), n * (n - 1))
ConstCorr(S)  == LET s == Sds(S) r == AvgCorr(S, s) IN
                 TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |-> IF i = j THEN S[i][i] ELSE RMul(r, RMul(s[i], s[j]))]])
LwConstCorr(X, S) ==
  LET T == Len(X) N == Len(S) s == Sds(S) r == AvgCorr(S, s) P == PiMat(X, S)
      Th(i, j) == RDiv(RSum([t \in 1..T |-> RMul(RSub(RSq(X[t][i]), S[i][i]), RSub(RMul(X[t][i], X[t][j]), S[i][j]))]), T)
      rho == RAdd(Trace(P), RSum([i \in 1..N |-> RSum([j \in 1..N |-> IF i = j THEN R(0, 1) ELSE
                RMul(r, RMul(RDiv(s[j], s[i]), Th(i, j)))])]))   \* both halves of the symmetric sum
      g == Fro2(MSub(S, ConstCorr(S)))
  IN  IF RLe(g, RMul(Tol12, RMul(Tol12, Fro2(S)))) THEN <<>> ELSE <<Clip01(RDiv(RDiv(RSub(MSum(P), rho), g), T))>>
\* oracle approximating shrinkage, Chen et al.
Oas(S, T) ==
  LET N == Len(S) t2 == Fro2(S) t1 == RSq(Trace(S))
      num == RAdd(RMul(RSub(1, R(2, N)), t2), t1)
      den == RMul(RSub(R(T + 1, 1), R(2, N)), RSub(t2, RDiv(t1, N)))
  IN  IF RLe(den, 0) THEN R(1, 1) ELSE RMin(1, RDiv(num, den))

\* ---- exponential weights: the recursion and its closed form ----------------------
Lambda(span) == RSub(1, RDiv(2, RAdd(span, 1)))
RECURSIVE Ewma(_, _, _)
Ewma(X, l, t) == IF t = 1 THEN Outer(X[1], X[1])
                 ELSE TLCEval(MAdd(MScale(l, Ewma(X, l, t - 1)), MScale(RSub(1, l), Outer(X[t], X[t]))))
EwmaClosed(X, l) == LET T == Len(X) IN
                    Second(X, [t \in 1..T |-> IF t = 1 THEN RPow(l, T - 1) ELSE RMul(RSub(1, l), RPow(l, T - t))])

\* ---- factors plus sparse remainder -------------------------------------------------
Soft(x, k)    == RMul(RSgn(x), RMax(0, RSub(RAbs(x), k)))
SoftOff(M, k) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j THEN M[i][i] ELSE Soft(M[i][j], k)]])
OffDiag(M)    == LET n == Len(M) IN TLCEval([k \in 1..n * (n - 1) |->
                    LET i == ((k - 1) \div (n - 1)) + 1 c == ((k - 1) % (n - 1)) + 1 IN RAbs(M[i][IF c < i THEN c ELSE c + 1])])
IsMedian(x, v, tol) == LET n == Len(v)
                           lo == Cardinality({i \in 1..n : RLe(v[i], RAdd(x, tol))})
                           hi == Cardinality({i \in 1..n : RGe(v[i], RSub(x, tol))}) IN 2 * lo >= n /\ 2 * hi >= n
Sorted(v)     == SortSeq(v, LAMBDA a, b : RLt(a, b))
Median(v)     == LET s == Sorted(v) n == Len(v) IN
                 IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), 2)
AutoThresh(M, T) == IF Len(M) = 1 THEN R(0, 1)
                    ELSE RMul(Median(OffDiag(M)), RSqrt(RDiv(RLn(IF Len(M) > 2 THEN Len(M) ELSE 2), T)))

\* ---- repair of an indefinite matrix: a uniform shift of the diagonal ---------------
Repaired(M, out, tol) ==
  LET c == RSub(out[1][1], M[1][1]) n == Len(M) IN
  /\ MNear(out, MAdd(M, MScale(c, Ident(n))), tol)
  /\ IF IsPSD(M, R(9, 1000000000)) THEN RLe(RAbs(c), tol)
     ELSE IF ~IsPSD(M, R(11, 1000000000)) THEN RGt(c, 0) /\ IsPSD(out, R(11, 1000000000)) /\ ~IsPD(MSub(out, MScale(R(2, 1000000), Ident(n))))
     ELSE RLe(RAbs(c), Tol7)

\* ---- robust estimates ---------------------------------------------------------------
\* Huber: weights of the observations around m for the threshold tau
Mad(x)        == LET m == Median(x) IN Median([t \in 1..Len(x) |-> RAbs(RSub(x[t], m))])
HuberTau(x)   == LET T == Len(x) IN
                 RMul(RAdd(RMul(R(14826, 10000), Mad(x)), Tol12), RSqrt(RDiv(T, RMax(2, RLn(IF T > 3 THEN T ELSE 3)))))
HuberStep(x, m, tau) ==
  LET w == TLCEval([t \in 1..Len(x) |-> LET r == RMax(RAbs(RSub(x[t], m)), Tol12) IN RMin(1, RDiv(tau, r))])
  IN  RDiv(RDot(w, x), RSum(w))
\* Tyler: one step of the fixed point from A (trace N), shrunk towards G (trace N)
TylerStep(X, A, G, rho) ==
  LET N == Len(A) I == Inverse(A)
      w == TLCEval([t \in 1..Len(X) |-> RDiv(R(1, 1), Quad(X[t], I))])
      U == Second(X, w)
  IN  Mix(rho, G, MScale(RDiv(N, Trace(U)), U))
TylerQuads(X, A) == LET I == Inverse(A) IN TLCEval([t \in 1..Len(X) |-> Quad(X[t], I)])
\* medians of the means of the blocks of a partition
BlockMeans(x, blocks) == TLCEval([b \in 1..Len(blocks) |-> RDiv(RSum([k \in 1..Len(blocks[b]) |-> x[blocks[b][k]]]), Len(blocks[b]))])
IsPartition(blocks, T) ==
  LET all == [b \in 1..Len(blocks) |-> {blocks[b][k] : k \in 1..Len(blocks[b])}] IN
  /\ UNION {all[b] : b \in 1..Len(blocks)} = 1..T
  /\ \A b \in 1..Len(blocks) : Cardinality(all[b]) = Len(blocks[b]) /\ Len(blocks[b]) > 0
  /\ \A a, b \in 1..Len(blocks) : a # b => all[a] \cap all[b] = {}
  /\ \A a, b \in 1..Len(blocks) : Len(blocks[a]) - Len(blocks[b]) \in -1..1
\* graphical lasso: stationarity of log det - trace - alpha sum of off-diagonal |theta|
GlassoOk(S, C, Th, alpha, tol, tz) ==
  \A i, j \in 1..Len(S) :
    IF i = j THEN RNear(C[i][i], S[i][i], tol)
    ELSE /\ RLe(RAbs(RSub(C[i][j], S[i][j])), RAdd(alpha, tol))
         /\ (RGt(RAbs(Th[i][j]), tz) => RNear(C[i][j], RAdd(S[i][j], RMul(alpha, RSgn(Th[i][j]))), tol))
=============================================================================
