------------------------------ MODULE PathsTrace ------------------------------
(* Conformance of scenario profits, reports, horizon and drawdown figures     *)
(* (S02) and of projection, paths, repricing and conversions (J01).           *)
EXTENDS TraceBase, Paths

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError", "KeyError"}
GivenOk(m, n) == m.k = "none" \/ (IsVec(m.v, n) /\ (\A i \in 1..n : RLe(0, m.v[i])) /\ RGt(RSum(m.v), 0))
Masses(m, n)  == IF m.k = "none" THEN Uniform(n) ELSE Resolve(m.v, n)
ConfOk(c) == RNum(c) /\ RLt(0, c) /\ RLt(c, 1)
LabelOk(lab, conf) == RNear(lab, RMul(100, conf), R(51, 100))
Same(ev) == {<<"inputs-unchanged", ev.same>>}

\* ---- scenario profits: one column per portfolio -----------------------------
JudgePnl(ev) ==
  Same(ev) \cup
  IF ~Matchable(ev.wl, ev.cols, ev.rows, Len(ev.R[1])) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE {<<"one-profit-per-scenario", IsMat(ev.out.cols, Len(ev.W), Len(ev.R))>>}
       \cup (IF ~IsMat(ev.out.cols, Len(ev.W), Len(ev.R)) THEN {} ELSE
       {<<"profit-is-the-product", \A j \in 1..Len(ev.W) :
            VNear(ev.out.cols[j], Pnl(ev.R, Aligned(ev.W[j], ev.wl, ev.cols)), RMul(Tol12, Scale(ev.R, ev.W[j])))>>,
        <<"profit-keeps-labels", (ev.out.index = <<>> \/ ev.out.index = ev.index) /\ (ev.out.names = <<>> \/ ev.out.names = ev.names)>>})

\* ---- report of one portfolio ----------------------------------------------
JudgeReport(ev) ==
  Same(ev) \cup
  IF ev.junk \/ ~ConfOk(ev.conf) \/ ~GivenOk(ev.p, Len(ev.R)) \/ ~Matchable(ev.wl, ev.cols, ev.rows, Len(ev.R[1]))
  THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET w == Aligned(ev.w, ev.wl, ev.cols) p == TLCEval(Masses(ev.p, Len(ev.R))) X == Pnl(ev.R, w) IN
       {<<"confidence-named", LabelOk(ev.out.lab, ev.conf)>>}
       \cup Figures("report", ev.out.f, X, Pnl(TailRows(ev.R, p, ev.demean), w), p, RSub(1, ev.conf), Scale(ev.R, w))

\* ---- one report per horizon; ev.sets[i] are the repriced scenarios of horizon i, ev.moves[i] the driver moves ----
JudgeHorizon(ev) ==
  Same(ev) \cup
  IF ev.junk \/ ~ConfOk(ev.conf) \/ ~GivenOk(ev.p, Len(ev.H)) \/ ~Matchable(ev.wl, ev.cols, ev.rows, Len(ev.H[1]))
  THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET m == Len(ev.horizons) w == Aligned(ev.w, ev.wl, ev.cols) p == TLCEval(Masses(ev.p, Len(ev.H))) IN
  IF Len(ev.out.rows) # m \/ Len(ev.sets) # m THEN {<<"one-row-per-horizon", FALSE>>}
  ELSE {<<"one-row-per-horizon", ev.out.index = ev.names>>, <<"confidence-named", LabelOk(ev.out.lab, ev.conf)>>,
        <<"horizon-moves-are-sums", \A i \in 1..m : LET K == Sums(ev.H, p, ev.horizons[i]) IN
              \A t \in 1..Len(ev.moves[i]) : \E x \in K : VEq(x, ev.moves[i][t])>>,
        <<"as-many-scenarios-as-asked", \A i \in 1..m : Len(ev.sets[i]) = ev.n>>}
       \cup UNION {LET S == ev.sets[i] u == Uniform(Len(S)) X == Pnl(S, w) IN
                   Figures("horizon", ev.out.rows[i], X, X, u, RSub(1, ev.conf), Scale(S, w)) : i \in 1..m}

\* ---- drawdown figures of recorded paths -----------------------------------------
JudgeDown(ev) ==
  Same(ev) \cup
  IF ev.junk \/ ~GivenOk(ev.p, ev.T) \/ ~Matchable(ev.wl, ev.cols, ev.rows, ev.N) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET w  == Aligned(ev.w, ev.wl, ev.cols)
           D  == TLCEval([i \in 1..Len(ev.paths) |-> MaxDown(Wealths(ev.paths[i], w))])
           sc == RMul(Tol10, RMax(1, VMax(D)))
       IN {<<"drawdown-mean", RNear(ev.out.mean, RDiv(RSum(D), Len(D)), sc)>>,
           <<"drawdown-median", SampleQuantile(ev.out.median, D, R(1, 2), sc)>>,
           <<"drawdown-quantile", SampleQuantile(ev.out.quant, D, ev.conf, sc)>>,
           <<"drawdown-worst", RNear(ev.out.worst, VMax(D), sc)>>,
           <<"drawdown-ordered", RLe(0, ev.out.mean) /\ RLe(0, ev.out.quant) /\ RLeT(ev.out.quant, ev.out.worst, sc) /\ RLeT(ev.out.mean, ev.out.worst, sc)>>,
           <<"confidence-named", LabelOk(ev.out.lab, ev.conf)>>}

\* ---- projection --------------------------------------------------------------------
JudgeProject(ev) ==
  Same(ev) \cup
  IF ev.junk \/ ~GivenOk(ev.p, Len(ev.H)) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET p == TLCEval(Masses(ev.p, Len(ev.H))) K == Sums(ev.H, p, ev.h) IN
       {<<"as-many-scenarios-as-asked", Len(ev.out.M) = ev.n>>,
        <<"moves-are-sums-of-history", \A t \in 1..Len(ev.out.M) : \E x \in K : VEq(x, ev.out.M[t])>>,
        <<"same-seed-same-scenarios", ev.again>>,
        <<"structure-kept", ev.structure>>,
        <<"repriced-elementwise", \A t \in 1..Len(ev.out.P) : \A j \in 1..Len(ev.out.P[t]) :
              RNear(ev.out.P[t][j], Price(ev.f, ev.out.M[t][j]), RMul(Tol12, RMax(1, RAbs(Price(ev.f, ev.out.M[t][j])))))>>}

\* counts of the distinct totals among many simulations
Binom(c, n, q) == LET sd == RSqrt(RMul(n, RMul(q, RSub(1, q)))) IN RLe(RAbs(RSub(c, RMul(n, q))), RAdd(RMul(6, sd), R(3, 1)))
JudgeTally(ev) ==
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET p == TLCEval(Masses(ev.p, Len(ev.H))) K == Sums(ev.H, p, ev.h) IN
       {<<"frequencies-follow-the-probabilities",
          /\ \A i \in 1..Len(ev.vals) : \E x \in K : VEq(x, ev.vals[i])
          /\ \A x \in K : LET c == RSum([i \in 1..Len(ev.vals) |-> IF VEq(ev.vals[i], x) THEN ev.counts[i] ELSE 0]) IN Binom(c, ev.n, Chance(ev.H, p, ev.h, x))>>}

\* ---- paths ---------------------------------------------------------------------------
JudgePaths(ev) ==
  Same(ev) \cup
  IF ev.junk \/ ~GivenOk(ev.p, Len(ev.H)) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET p == TLCEval(Masses(ev.p, Len(ev.H))) Z == VScale(R(0, 1), ev.H[1]) A == Rows(ev.H, p) IN
       {<<"paths-shape", Len(ev.out.M) = ev.n /\ \A i \in 1..Len(ev.out.M) : Len(ev.out.M[i]) = ev.h>>,
        <<"paths-are-running-totals", \A i \in 1..Len(ev.out.M) : \A t \in 1..Len(ev.out.M[i]) :
             \E r \in A : VEq(VSub(ev.out.M[i][t], IF t = 1 THEN Z ELSE ev.out.M[i][t - 1]), ev.H[r])>>,
        <<"same-seed-same-scenarios", ev.again>>,
        <<"paths-repriced-elementwise", \A i \in 1..Len(ev.out.P) : \A t \in 1..Len(ev.out.P[i]) : \A j \in 1..Len(ev.out.P[i][t]) :
             RNear(ev.out.P[i][t][j], Price(ev.f, ev.out.M[i][t][j]), RMul(Tol12, RMax(1, RAbs(Price(ev.f, ev.out.M[i][t][j])))))>>}
\* counts of pairs of consecutive draws: ev.pairs[i] = <<first row, second row>> (rows of H are distinct)
JudgePairs(ev) ==
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET p == TLCEval(Masses(ev.p, Len(ev.H))) T == Len(ev.H) IN
       {<<"steps-are-independent", \A a, b \in 1..T :
           Binom(RSum([i \in 1..Len(ev.pairs) |-> IF ev.pairs[i] = <<a, b>> THEN ev.counts[i] ELSE 0]), ev.n, RMul(p[a], p[b]))>>}

\* ---- scaling and conversion -------------------------------------------------------------
JudgeScale(ev) ==
  Same(ev) \cup
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE {<<"moments-scale-with-the-horizon", /\ VNear(ev.out.mu, VScale(ev.f, ev.mu), RMul(Tol12, ev.sc))
          /\ \A i \in 1..Len(ev.mu) : VNear(ev.out.cov[i], VScale(ev.f, ev.cov[i]), RMul(Tol12, ev.sc))>>,
        <<"structure-kept", ev.structure>>}
JudgeConvert(ev) ==
  Same(ev) \cup
  IF ev.dir = "tolog" /\ \E i \in 1..Len(ev.x) : RLe(ev.x[i], -1) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE {<<"conversion", \A i \in 1..Len(ev.x) : LET y == IF ev.dir = "tolog" THEN ToLog(ev.x[i]) ELSE ToSimple(ev.x[i]) IN
                        RNear(ev.out.y[i], y, RMul(Tol12, RMax(1, RAbs(y))))>>,
        <<"conversion-undone", \A i \in 1..Len(ev.x) : RNear(ev.out.back[i], ev.x[i], RMul(Tol10, RMax(1, RAbs(ev.x[i]))))>>}
JudgeMoments(ev) ==
  Same(ev) \cup
  IF ev.dir = "tolog" /\ \E i \in 1..Len(ev.mu) : RLe(ev.mu[i], -1) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET m == IF ev.dir = "tolog" THEN LogMean(ev.mu, ev.cov) ELSE SimpleMean(ev.mu, ev.cov)
           C == IF ev.dir = "tolog" THEN LogCov(ev.mu, ev.cov) ELSE SimpleCov(ev.mu, ev.cov)
           n == Len(ev.mu) IN
       {<<"moment-conversion", /\ \A i \in 1..n : RNear(ev.out.mu[i], m[i], RMul(Tol10, RMax(1, RAbs(m[i]))))
             /\ \A i, j \in 1..n : RNear(ev.out.cov[i][j], C[i][j], RMul(Tol10, RMax(1, RAbs(C[i][j]))))>>,
        <<"moment-conversion-undone", /\ \A i \in 1..n : RNear(ev.out.bmu[i], ev.mu[i], Tol8)
             /\ \A i, j \in 1..n : RNear(ev.out.bcov[i][j], ev.cov[i][j], Tol8)>>,
        <<"structure-kept", ev.structure>>}

\* ---- repricing: one column per instrument, from the columns of its own drivers ---------------
JudgeReprice(ev) ==
  Same(ev) \cup
  IF ev.junk THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE {<<"one-column-per-instrument", ev.out.names = ev.names /\ IsMat(ev.out.M, Len(ev.Y), Len(ev.inst))>>}
       \cup (IF ~IsMat(ev.out.M, Len(ev.Y), Len(ev.inst)) THEN {} ELSE
        {<<"own-pricing-own-drivers", \A t \in 1..Len(ev.Y) : \A j \in 1..Len(ev.inst) :
            LET v == Joint(ev.inst[j].f, TLCEval([d \in 1..Len(ev.inst[j].d) |-> ev.Y[t][ev.inst[j].d[d]]])) IN
            RNear(ev.out.M[t][j], v, RMul(Tol12, RMax(1, RAbs(v))))>>})
\* the same along paths: every step of every path is priced instrument by instrument
JudgeInstPaths(ev) ==
  Same(ev) \cup
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE {<<"paths-priced-by-instrument",
         /\ Len(ev.out.P) = Len(ev.out.M)
         /\ \A i \in 1..Len(ev.out.M) : Len(ev.out.P[i]) = Len(ev.out.M[i]) /\
            \A t \in 1..Len(ev.out.M[i]) : Len(ev.out.P[i][t]) = Len(ev.inst) /\
              \A j \in 1..Len(ev.inst) :
                LET v == Joint(ev.inst[j].f, TLCEval([d \in 1..Len(ev.inst[j].d) |-> ev.out.M[i][t][ev.inst[j].d[d]]])) IN
                RNear(ev.out.P[i][t][j], v, RMul(Tol12, RMax(1, RAbs(v))))>>}
\* full repricing: price at the shifted level minus price now, price = face * exp(-level * maturity) summed over drivers
JudgeFull(ev) ==
  Same(ev) \cup
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET B(y) == RMul(ev.face, RExp(RNeg(RMul(y, ev.mat)))) IN
       {<<"full-repricing", \A t \in 1..Len(ev.Y) : \A j \in 1..Len(ev.y0) :
           LET v == RSub(B(RAdd(ev.y0[j], ev.Y[t][j])), B(ev.y0[j])) IN RNear(ev.out.M[t][j], v, RMul(Tol10, RMax(1, RAbs(ev.face))))>>}

TStart(init) == <<>>
TJudge(s, ev) == CASE ev.op = "pnl"     -> JudgePnl(ev)
                 []   ev.op = "report"  -> JudgeReport(ev)
                 []   ev.op = "horizon" -> JudgeHorizon(ev)
                 []   ev.op = "down"    -> JudgeDown(ev)
                 []   ev.op = "project" -> JudgeProject(ev)
                 []   ev.op = "tally"   -> JudgeTally(ev)
                 []   ev.op = "paths"   -> JudgePaths(ev)
                 []   ev.op = "pairs"   -> JudgePairs(ev)
                 []   ev.op = "scale"   -> JudgeScale(ev)
                 []   ev.op = "convert" -> JudgeConvert(ev)
                 []   ev.op = "moments" -> JudgeMoments(ev)
                 []   ev.op = "reprice" -> JudgeReprice(ev)
                 []   ev.op = "instpaths" -> JudgeInstPaths(ev)
                 []   OTHER             -> JudgeFull(ev)
TAdvance(s, ev) == s
=============================================================================
