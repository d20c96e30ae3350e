------------------------------ MODULE MomentsMC ------------------------------
(* Observations arrive one at a time; running sums and the exponential       *)
(* recursion are kept.  At every length the estimates computed from the      *)
(* running state are those of the whole sample and have the stated shape.    *)
EXTENDS Moments, CSV, IOUtils, Json

CONSTANTS MaxT, Values, Span

VARIABLES X, cnt, sum, gram, ew
mvars == <<X, cnt, sum, gram, ew>>

Q(i) == R(i - 2, 4)
RowSet == {<<Q(a), Q(b)>> : a \in Values, b \in Values}
L == Lambda(Span)
Init == \E x \in RowSet : X = <<x>> /\ cnt = 1 /\ sum = x /\ gram = Outer(x, x) /\ ew = Outer(x, x)
Observe == /\ cnt < MaxT
           /\ \E x \in RowSet :
              /\ X' = Append(X, x) /\ cnt' = cnt + 1
              /\ sum' = VAdd(sum, x) /\ gram' = MAdd(gram, Outer(x, x))
              /\ ew' = MAdd(MScale(L, ew), MScale(RSub(1, L), Outer(x, x)))
              /\ IF cnt' = MaxT THEN CSVWrite("%1$s", <<ToJson([X |-> X'])>>, IOEnv.VEMIT) ELSE TRUE
Next == Observe

U == Uniform(cnt)
S == CovP(X, U)
Mu == MeanP(X, U)
Running  == /\ VEq(Mu, VScale(R(1, cnt), sum))
            /\ MEq(S, MSub(MScale(R(1, cnt), gram), Outer(Mu, Mu)))
Recursive == MEq(ew, Ewma(X, L, cnt)) /\ MEq(ew, EwmaClosed(X, L)) /\ IsPSD(ew, Tol12)
Definite == IsPSD(S, Tol12) /\ Symmetric(S)
Shrunk(d) == /\ RLe(0, d) /\ RLe(d, 1)
             /\ LET M == Mix(d, ScaledId(S), S) IN REq(Trace(M), Trace(S)) /\ IsPSD(M, Tol12) /\ RLe(Fro2(M), Fro2(S))
Linear   == Shrunk(LwIdentity(Centred(X, Mu), S)) /\ Shrunk(Oas(S, cnt)) /\ Shrunk(Oas(MScale(R(1, cnt), gram), cnt))
\* the published intensity minimises the estimated loss  d^2 g + (1-d)^2 g + ... : no scale in it
ScaleFree == LET Y == [t \in 1..cnt |-> VScale(3, X[t])] SY == CovP(Y, U) IN
             /\ REq(LwIdentity(Centred(Y, MeanP(Y, U)), SY), LwIdentity(Centred(X, Mu), S))
             /\ REq(Oas(SY, cnt), Oas(S, cnt))
\* constant correlation of two assets is their own correlation: the target is the sample
TwoAssets == (\A i \in 1..2 : RGt(S[i][i], 0)) => MNear(ConstCorr(S), S, Tol12)
\* weights of the mean shrinkers lie in [0,1]
MeanShrink == IsPD(S) => /\ LET w == JamesStein(VSub(Mu, <<R(1, 4), R(0, 1)>>), S, cnt) IN RLe(0, w) /\ RLe(w, 1)
                         /\ LET k == JorionParts(Mu, S, cnt) IN RLe(0, k.v) /\ RLe(k.v, 1)
                              /\ RNear(RDot(Solve(MAdd(S, MScale(Tol8, Ident(2))), Const(2, R(1, 1))), k.d), 0, Tol8)
Repairs  == LET M == MSub(S, MScale(R(1, 8), Ident(2)))
                c == IF IsPSD(M, Tol8) THEN R(0, 1) ELSE R(1, 8) IN   \* a shift that surely suffices
            IsPSD(MAdd(M, MScale(c, Ident(2))), Tol8)
Robust   == \A j \in 1..2 : LET x == Col(X, j) IN
            /\ LET h == HuberStep(x, Median(x), HuberTau(x)) IN RLe(VMin(x), h) /\ RLe(h, VMax(x))
            /\ IsMedian(Median(x), x, 0)
            /\ LET b == <<[k \in 1..cnt |-> k]>> IN IsPartition(b, cnt) /\ REq(BlockMeans(x, b)[1], Mu[j])
            /\ LET b == [k \in 1..cnt |-> <<k>>] IN IsPartition(b, cnt) /\ VEq(BlockMeans(x, b), x)
Threshold == LET T == SoftOff(S, R(1, 16)) IN Symmetric(T) /\ IsPSD(T, Tol12)      \* two assets: shrinking the covariance
=============================================================================
