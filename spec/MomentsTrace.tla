----------------------------- MODULE MomentsTrace -----------------------------
(* Conformance of the estimators of means and covariances.  The state keeps   *)
(* the eigenvalues certified by a full-rank factor decomposition, against     *)
(* which a later automatic choice of the number of factors is judged.         *)
EXTENDS TraceBase, Moments

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError"}
Labelled(ev) == ev.out.idx = ev.labels /\ (ev.out.M = <<>> \/ ev.out.cols = ev.labels)
Base(ev)  == {<<"data-unchanged", ev.same>>}
VecOk(ev, n) == IsVec(ev.out.v, n)
MatOk(ev, n) == IsMat(ev.out.M, n, n)
CovShape(ev, n) ==
  IF ~MatOk(ev, n) THEN {<<"covariance-shape", FALSE>>}
  ELSE LET sc == RMax(MaxAbs(ev.out.M), Tol12) IN
       {<<"covariance-shape", TRUE>>,
        <<"covariance-symmetric", MNear(ev.out.M, Transpose(ev.out.M), RMul(Tol12, sc))>>,
        <<"covariance-semidefinite", IsPSD(MScale(R(1, 2), MAdd(ev.out.M, Transpose(ev.out.M))), R(11, 1000000000))>>,
        <<"labels-kept", Labelled(ev)>>}
\* a covariance clause is only asked of a well-shaped result
Cov(ev, n, rest) == Base(ev) \cup (IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
                    ELSE CovShape(ev, n) \cup (IF MatOk(ev, n) THEN rest ELSE {}))
Mean1(ev, n, rest) == Base(ev) \cup (IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
                    ELSE IF ~VecOk(ev, n) THEN {<<"mean-shape", FALSE>>}
                    ELSE {<<"mean-shape", TRUE>>, <<"labels-kept", Labelled(ev)>>} \cup rest)
Misfit(ev) == Base(ev) \cup {<<"misfits-rejected", Refused(ev.out)>>}
Sc(M) == RMax(MaxAbs(M), Tol12)
Scv(v) == RMax(VMax([i \in 1..Len(v) |-> RAbs(v[i])]), Tol12)

\* ---- sample moments -----------------------------------------------------------------
MassOk(p, n)  == p.k = "none" \/ (IsVec(p.v, n) /\ (\A i \in 1..n : RLe(RNeg(Tol8), p.v[i])) /\ RNear(RSum(p.v), 1, Tol5))
JudgeSample(ev) ==
  IF ~MassOk(ev.p, Len(ev.X)) THEN Misfit(ev)
  ELSE LET n == Len(ev.X[1]) p == IF ev.p.k = "none" THEN Uniform(Len(ev.X)) ELSE ev.p.v
           m == MeanP(ev.X, p) sc == Sc(ev.X) IN
       Cov(ev, n, {<<"sample-mean", VecOk(ev, n) /\ VNear(ev.out.v, m, RMul(Tol12, sc))>>,
                   <<"sample-covariance", MNear(ev.out.M, CovP(ev.X, p), RMul(Tol12, RSq(sc)))>>})

\* ---- shrunk means ----------------------------------------------------------------------
\* x = b + w (a - b) for one w
OnSegment(x, a, b, w, tol) == VNear(x, VMix(w, a, b), tol)
WellPosed(S) == IsPD(MSub(S, MScale(RMul(Tol6, RDiv(Trace(S), Len(S))), Ident(Len(S)))))
JudgeJorion(ev) ==
  LET n == Len(ev.mu) IN
  IF ev.T <= 0 \/ n <= 2 \/ ~IsMat(ev.S, n, n) THEN Misfit(ev)
  ELSE LET k == JorionParts(ev.mu, ev.S, ev.T) tol == RMul(Tol7, Scv(ev.mu)) IN
       Mean1(ev, n, IF WellPosed(ev.S) THEN {<<"bayes-stein", VNear(ev.out.v, VSub(ev.mu, VScale(k.v, k.d)), tol)>>}
                    ELSE {<<"between-data-and-target",
                            LET d == VSub(ev.mu, ev.out.v)       \* same direction as the distance to a common mean
                                i == CHOOSE i \in 1..n : \A j \in 1..n : RLe(ev.mu[j], ev.mu[i])
                                j == CHOOSE j \in 1..n : \A l \in 1..n : RLe(ev.mu[j], ev.mu[l])
                                r == RSub(ev.mu[i], ev.mu[j])
                                w == IF RZero(r) THEN R(0, 1) ELSE RDiv(RSub(d[i], d[j]), r)
                            IN  RLe(RNeg(Tol6), w) /\ RLe(w, R(1000001, 1000000))
                                /\ \A a \in 1..n : RNear(RSub(d[a], d[j]), RMul(w, RSub(ev.mu[a], ev.mu[j])), RMul(Tol6, Scv(ev.mu)))>>})
JudgeJs(ev) ==
  LET n == Len(ev.mu) IN
  IF ev.T <= 0 \/ ~IsMat(ev.S, n, n) \/ ev.target.k = "odd" \/ (ev.target.k = "given" /\ ~IsVec(ev.target.v, n)) THEN Misfit(ev)
  ELSE LET b == IF ev.target.k = "given" THEN ev.target.v ELSE GrandMean(ev.mu)
           d == VSub(ev.mu, b) tol == RMul(Tol8, RMax(Scv(ev.mu), Scv(b))) IN
       Mean1(ev, n, IF WellPosed(ev.S) THEN {<<"james-stein", OnSegment(ev.out.v, ev.mu, b, JamesStein(d, ev.S, ev.T), tol)>>}
                    ELSE {<<"between-data-and-target",
                            LET i == CHOOSE i \in 1..n : \A j \in 1..n : RLe(RAbs(d[j]), RAbs(d[i]))
                                w == IF RZero(d[i]) THEN R(0, 1) ELSE RDiv(RSub(ev.out.v[i], b[i]), d[i])
                            IN  RLe(RNeg(Tol8), w) /\ RLe(w, R(100000001, 100000000)) /\ OnSegment(ev.out.v, ev.mu, b, w, tol)>>})

\* ---- linear shrinkage --------------------------------------------------------------------
JudgeLw(ev) ==
  LET n == Len(ev.X[1]) Y == Centred(ev.X, MeanP(ev.X, Uniform(Len(ev.X)))) IN
  IF ~IsMat(ev.S, n, n) \/ ev.target \notin {"identity", "constant_correlation"} THEN Misfit(ev)
  ELSE LET S == ev.S tol == RMul(Tol8, Sc(S)) IN
       Cov(ev, n,
         IF ev.target = "identity" THEN {<<"ledoit-wolf-identity",
              IF RLe(Fro2(MSub(S, ScaledId(S))), RMul(Tol12, Fro2(S))) THEN MNear(ev.out.M, S, RMul(Tol6, Sc(S)))
              ELSE MNear(ev.out.M, Mix(LwIdentity(Y, S), ScaledId(S), S), tol)>>}
         ELSE {<<"variances-kept", \A i \in 1..n : RNear(ev.out.M[i][i], S[i][i], tol)>>} \cup
              (IF \E i \in 1..n : RLe(S[i][i], RMul(Tol8, Sc(S))) THEN {}
               ELSE {<<"ledoit-wolf-correlation",
                 LET F == ConstCorr(S) g == Fro2(MSub(S, F)) IN
                 IF RLe(g, RMul(Tol12, Fro2(S))) THEN MNear(ev.out.M, S, RMul(Tol5, Sc(S)))
                 ELSE LET d == LwConstCorr(Y, S) IN d = <<>> \/ MNear(ev.out.M, Mix(d[1], F, S), tol)>>}))
JudgeOas(ev) ==
  LET n == Len(ev.X[1]) u == Uniform(Len(ev.X)) S == IF ev.centred THEN Second(ev.X, u) ELSE CovP(ev.X, u) IN
  Cov(ev, n, {<<"oas", MNear(ev.out.M, IF n = 1 THEN S ELSE Mix(Oas(S, Len(ev.X)), ScaledId(S), S), RMul(Tol8, Sc(S)))>>})

\* ---- exponential recursion ---------------------------------------------------------------
JudgeEwma(ev) ==
  LET n == Len(ev.X[1]) IN
  IF Len(ev.X) < ev.minp \/ RLt(ev.span, 1) THEN Misfit(ev)
  ELSE Cov(ev, n, {<<"exponential-recursion", MNear(ev.out.M, EwmaClosed(ev.X, Lambda(ev.span)), RMul(Tol12, RSq(Sc(ev.X))))>>})

\* ---- factors plus sparse remainder ---------------------------------------------------------
\* the scaled sample covariance and the scaling (degenerate columns are left as they are)
Corrected(ev) == LET T == Len(ev.X) IN MScale(R(T, T - 1), CovP(ev.X, Uniform(T)))
Scales(ev, C) == IF ev.std THEN TLCEval([i \in 1..Len(C) |-> IF RLe(C[i][i], RMul(Tol12, Tol12)) THEN R(1, 1) ELSE RSqrt(C[i][i])])
                 ELSE Const(Len(C), R(1, 1))
JudgePoet(s, ev) ==
  LET n == Len(ev.X[1]) T == Len(ev.X) IN
  IF (ev.kf # <<>> /\ ev.kf[1] <= 0) \/ (ev.th # <<>> /\ RLt(ev.th[1], 0)) THEN Misfit(ev)
  ELSE LET C == TLCEval(Corrected(ev)) d == Scales(ev, C) sc == Sc(C)
           S == TLCEval([i \in 1..n |-> [j \in 1..n |-> RDiv(C[i][j], RMul(d[i], d[j]))]])
           tol == RMul(Tol8, Sc(S))
       IN
  Cov(ev, n, {<<"variances-kept", \/ \A i \in 1..n : RNear(ev.out.M[i][i], C[i][i], RMul(Tol8, sc))
                                  \/ LET c == RSub(ev.out.M[1][1], C[1][1]) IN
                                     RGt(c, 0) /\ \A i \in 1..n : RNear(ev.out.M[i][i], RAdd(C[i][i], c), RMul(Tol8, sc))>>}
    \cup (IF ~ev.decomp THEN {} ELSE
     LET B == ev.out.B K == IF Len(B) = n THEN Len(B[1]) ELSE 0 IN
     IF K = 0 \/ ~IsMat(B, n, K) \/ ~IsMat(ev.out.F, T, K) THEN {<<"decomposition-shape", FALSE>>}
     ELSE
     LET b  == TLCEval([j \in 1..K |-> [i \in 1..n |-> RDiv(B[i][j], d[i])]])        \* scaled loadings
         l  == TLCEval([j \in 1..K |-> RDot(b[j], b[j])])
         BB == MM(Transpose(b), b)
         Rs == TLCEval(MSub(S, BB))
         th == IF ev.th # <<>> THEN ev.th[1] ELSE AutoThresh(Rs, T)
         Sg == TLCEval(MAdd(BB, SoftOff(Rs, th)))
         G  == TLCEval([i \in 1..n |-> [j \in 1..n |-> RMul(Sg[i][j], RMul(d[i], d[j]))]])
         lk == l[K]
         Y  == Centred(ev.X, MeanP(ev.X, Uniform(T)))
     IN {<<"decomposition-shape", (ev.kf # <<>> => K = (IF ev.kf[1] < n THEN ev.kf[1] ELSE n))>>,
         <<"decomposition-labelled", ev.out.bidx = ev.labels /\ (ev.labels = <<>> \/ ev.out.fidx = ev.dates)>>,
         <<"factors-are-eigenvectors", \A j \in 1..K : VNear(MV(S, b[j]), VScale(l[j], b[j]), tol)
              /\ \A i \in 1..K : i < j => RNear(RDot(b[i], b[j]), 0, tol) /\ RLe(l[j], RAdd(l[i], tol))>>,
         <<"largest-factors", IsPSD(MSub(MScale(lk, Ident(n)), Rs), RMul(10, tol)) /\ IsPSD(Rs, RMul(10, tol))>>,
         <<"scores-are-projections", \A t \in 1..T : \A j \in 1..K :
              RNear(RMul(ev.out.F[t][j], RSqrt(l[j])), RDot([i \in 1..n |-> RDiv(Y[t][i], d[i])], b[j]), RMul(Tol6, RMax(1, Sc(ev.X))))>>,
         <<"low-rank-plus-sparse", Repaired(G, ev.out.M, RMul(Tol8, sc))>>}
        \cup (IF ev.kf # <<>> \/ s.key # ev.key \/ n < 4 THEN {} ELSE
              LET gap(i) == RSub(s.lam[i], s.lam[i + 1])
                  big == {i \in 1..(n - 2) : \A j \in 1..(n - 1) : j # i => RGt(gap(i), RMul(3, gap(j)))}
              IN  IF big = {} THEN {} ELSE {<<"eigen-gap", K \in big>>})))
PoetNext(s, ev) == IF ev.out.k = "ok" /\ ev.decomp /\ ev.kf # <<>> /\ Len(ev.out.B) > 0 /\ Len(ev.out.B[1]) = Len(ev.out.B)
                   THEN LET n == Len(ev.X[1]) d == Scales(ev, Corrected(ev)) B == ev.out.B IN
                        [key |-> ev.key, lam |-> TLCEval([j \in 1..n |-> LET b == [i \in 1..n |-> RDiv(B[i][j], d[i])] IN RDot(b, b)])]
                   ELSE s

\* ---- robust estimators -----------------------------------------------------------------------
JudgeTyler(ev) ==
  LET n == Len(ev.X[1]) T == Len(ev.X) IN
  IF RLt(ev.rho, 0) \/ RLt(1, ev.rho) \/ ev.target.k = "odd" \/ (ev.target.k = "given" /\ ~IsMat(ev.target.M, n, n)) THEN Misfit(ev)
  ELSE LET Y == TLCEval(Centred(ev.X, MeanP(ev.X, Uniform(T)))) C == Corrected(ev)
           H == IF ev.target.k = "given" THEN MScale(R(1, 2), MAdd(ev.target.M, Transpose(ev.target.M))) ELSE Ident(n)
           G == MScale(RDiv(n, Trace(H)), H)
       IN IF ev.out.k = "err" /\ RLe(Trace(C), Tol12) THEN Base(ev) \cup {<<"no-dispersion-may-be-refused", Refused(ev.out)>>} ELSE
          Cov(ev, n, {<<"scale-of-the-sample", RNear(Trace(ev.out.M), Trace(C), RMul(Tol7, RMax(RAbs(Trace(C)), Tol7)))>>}
          \cup (IF ~ev.posed \/ ~RGt(Trace(C), 0) THEN {} ELSE
           LET A == MScale(RDiv(n, Trace(ev.out.M)), ev.out.M) IN
           IF ~IsPD(MSub(A, MScale(Tol6, Ident(n)))) THEN {<<"tyler-fixed-point", FALSE>>}
           ELSE IF \E t \in 1..T : RLt(TylerQuads(Y, A)[t], Tol5) THEN {}     \* the floor of the weights binds: not judged
           ELSE {<<"tyler-fixed-point", MNear(A, TylerStep(Y, A, G, ev.rho), RMul(ev.tol, Sc(A)))>>}))
JudgeHuber(ev) ==
  LET n == Len(ev.X[1]) IN
  Mean1(ev, n, {<<"huber-fixed-point", \A j \in 1..n : LET x == Col(ev.X, j) m == ev.out.v[j] IN
                   RNear(m, HuberStep(x, m, HuberTau(x)), RMul(ev.tol, RAdd(RAbs(m), 1)))>>,
                <<"within-the-data", \A j \in 1..n : LET x == Col(ev.X, j) e == RMul(Tol10, Scv(x)) IN
                   RLe(RSub(VMin(x), e), ev.out.v[j]) /\ RLe(ev.out.v[j], RAdd(VMax(x), e))>>})
JudgeMom(ev) ==
  LET n == Len(ev.X[1]) T == Len(ev.X) IN
  IF ev.nb # <<>> /\ ev.nb[1] <= 0 THEN Misfit(ev)
  ELSE LET nb == IF ev.nb = <<>> THEN CHOOSE b \in 1..T : b * b >= T /\ (b = 1 \/ (b - 1) * (b - 1) < T)
                 ELSE IF ev.nb[1] < T THEN ev.nb[1] ELSE T IN
       Mean1(ev, n,
        {<<"median-of-block-means",
           IF nb = 1 THEN VNear(ev.out.v, MeanP(ev.X, Uniform(T)), RMul(Tol12, Sc(ev.X)))
           ELSE IF nb = T THEN \A j \in 1..n : RNear(ev.out.v[j], Median(Col(ev.X, j)), RMul(Tol12, Sc(ev.X)))
           ELSE IF ev.blocks = <<>> THEN ~ev.searched
           ELSE /\ Len(ev.blocks) = nb /\ IsPartition(ev.blocks, T)
                /\ \A j \in 1..n : RNear(ev.out.v[j], Median(BlockMeans(Col(ev.X, j), ev.blocks)), RMul(Tol12, Sc(ev.X)))>>,
         <<"same-seed-same-answer", ev.again>>})

\* ---- sparse precision ---------------------------------------------------------------------------
JudgeGlasso(ev) ==
  LET n == Len(ev.X[1]) T == Len(ev.X) IN
  IF T < 2 \/ (ev.alpha # <<>> /\ RLe(ev.alpha[1], 0)) THEN Misfit(ev)
  ELSE IF ev.out.k = "err" /\ \E i \in 1..Len(ev.out.mro) : ev.out.mro[i] = "RuntimeError"
       THEN Base(ev) \cup {<<"may-not-converge", TRUE>>}
  ELSE LET u == Uniform(T) S == IF ev.centred THEN Second(ev.X, u) ELSE CovP(ev.X, u)
           mx == IF n = 1 THEN R(0, 1) ELSE RMax(VMax(OffDiag(S)), Tol6)
           grid == IF ev.alpha # <<>> THEN <<ev.alpha[1]>>
                   ELSE [k \in 1..5 |-> RMul(mx, RExp(RMul(R(-(k - 1), 4), RLn(100))))]
           tol == RMul(R(1, 100), Sc(S))
       IN Cov(ev, n,
          IF ~ev.prec THEN {} ELSE IF ~IsMat(ev.out.P, n, n) THEN {<<"precision-shape", FALSE>>}
          ELSE {<<"precision-inverts-covariance", MNear(MM(ev.out.P, ev.out.M), Ident(n), Tol6)>>,
                <<"precision-definite", IsPD(MScale(R(1, 2), MAdd(ev.out.P, Transpose(ev.out.P))))>>,
                <<"precision-labelled", ev.out.pidx = ev.labels /\ ev.out.pcols = ev.labels>>}
               \cup (IF ~ev.posed THEN {} ELSE {<<"penalised-likelihood", \E k \in 1..Len(grid) :
                         GlassoOk(S, ev.out.M, ev.out.P, grid[k], tol, R(1, 20))>>}))

JudgeNls(ev) ==
  LET n == Len(ev.X[1]) S == CovP(ev.X, Uniform(Len(ev.X))) IN
  IF ev.out.k = "err" /\ (Len(ev.X) < 14 \/ ~IsPD(MSub(S, MScale(RMul(Tol10, Sc(S)), Ident(n))))) THEN Base(ev) \cup {<<"too-few-observations", TRUE>>}
  ELSE Cov(ev, n, {<<"same-eigenvectors", MNear(MM(S, ev.out.M), MM(ev.out.M, S), RMul(Tol8, RMul(Sc(S), Sc(ev.out.M))))>>,
                   <<"not-collapsed", RGt(Trace(ev.out.M), RMul(R(1, 10), Trace(S))) /\ RLt(Trace(ev.out.M), RMul(10, Trace(S)))>>})

JudgePsd(ev) ==
  LET n == Len(ev.X) S == MScale(R(1, 2), MAdd(ev.X, Transpose(ev.X))) IN
  Base(ev) \cup (IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>} ELSE
    {<<"repaired-is-semidefinite", IsMat(ev.out.M, n, n) /\ IsPSD(ev.out.M, R(11, 1000000000))>>,
     <<"repair-is-a-uniform-shift", IsMat(ev.out.M, n, n) /\ Repaired(S, ev.out.M, RMul(Tol12, Sc(S)))>>})

TStart(i) == [key |-> "", lam |-> <<>>]
TJudge(s, ev) ==
  CASE ev.op = "sample" -> JudgeSample(ev) [] ev.op = "jorion" -> JudgeJorion(ev) [] ev.op = "js" -> JudgeJs(ev)
  []   ev.op = "lw"     -> JudgeLw(ev)     [] ev.op = "oas"    -> JudgeOas(ev)    [] ev.op = "ewma" -> JudgeEwma(ev)
  []   ev.op = "poet"   -> JudgePoet(s, ev) [] ev.op = "tyler" -> JudgeTyler(ev)  [] ev.op = "glasso" -> JudgeGlasso(ev)
  []   ev.op = "nls"    -> JudgeNls(ev)    [] ev.op = "huber"  -> JudgeHuber(ev)  [] ev.op = "mom" -> JudgeMom(ev)
  []   ev.op = "psd"    -> JudgePsd(ev)    [] OTHER -> Misfit(ev)
TAdvance(s, ev) == IF ev.op = "poet" THEN PoetNext(s, ev) ELSE s
=============================================================================
