------------------------------ MODULE PricesTrace ------------------------------
(* Conformance of distributions and of the routes that build them.            *)
EXTENDS TraceBase, Prices

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError", "KeyError"}
Base(ev)   == {<<"inputs-unchanged", ev.same>>}
Misfit(ev) == Base(ev) \cup {<<"bad-data-rejected", Refused(ev.out)>>}
Labels(labs) == IF labs = <<>> THEN <<>> ELSE labs[1]
Opt(x, f(_)) == x # <<>> /\ f(x[1])
ScM(M)  == RMax(MaxAbs(M), Tol12)
ScV(v)  == RMax(VMax([i \in 1..Len(v) |-> RAbs(v[i])]), Tol12)
\* what the distribution holds against what the inputs a imply (tol relative to scale)
Held(ev, a, labs, tol) ==
  LET d == ev.out.d n == Size(a) IN
  Base(ev) \cup
  {<<"asset-count", d.N = n /\ d.T = (IF a.R = <<>> THEN -1 ELSE Len(a.R[1]))>>,
   <<"asset-names", d.names = Labels(labs)>>,
   <<"later-changes-do-not-reach-it", ev.kept>>,
   <<"scenarios-held", IF a.R = <<>> THEN d.R = <<>> ELSE d.R # <<>> /\ IsMat(d.R[1], Len(a.R[1]), n) /\ MNear(d.R[1], a.R[1], RMul(tol, ScM(a.R[1])))>>,
   <<"probabilities-held", IF a.R = <<>> THEN d.p = <<>> ELSE d.p # <<>> /\ IsVec(d.p[1], Len(a.R[1])) /\ VNear(d.p[1], Mass(a), Tol12)>>,
   <<"mean-held", IF MuOf(a) = <<>> THEN d.mu = <<>> ELSE d.mu # <<>> /\ IsVec(d.mu[1], n)
                  /\ VNear(d.mu[1], MuOf(a)[1], RMul(tol, RMax(ScV(MuOf(a)[1]), IF a.R = <<>> THEN R(0, 1) ELSE ScM(a.R[1]))))>>,
   <<"covariance-held", IF CovOf(a) = <<>> THEN d.cov = <<>> ELSE d.cov # <<>> /\ IsMat(d.cov[1], n, n)
                  /\ MNear(d.cov[1], CovOf(a)[1], RMul(tol, RMax(ScM(CovOf(a)[1]), IF a.R = <<>> THEN R(0, 1) ELSE RSq(ScM(a.R[1])))))>>}

JudgeDist(ev) ==
  IF ~Buildable(ev.a, ev.labs) THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE Held(ev, ev.a, ev.labs, Tol12)
JudgeScen(ev) ==
  IF ~Buildable(ev.a, ev.labs) THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE LET X == ev.a.R[1] IN
       Held(ev, [ev.a EXCEPT !.R = <<IF ev.kind = "log" THEN TLCEval([t \in 1..Len(X) |-> [j \in 1..Len(X[t]) |-> ToSimple(X[t][j])]]) ELSE X>>], ev.labs, Tol12)
\* moments: the covariance may be repaired first, then converted
JudgeMoments(ev) ==
  IF ~Buildable(ev.a, ev.labs) THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE LET S == MScale(R(1, 2), MAdd(ev.a.cov[1], Transpose(ev.a.cov[1]))) mu == ev.a.mu[1] d == ev.out.d
           fine == IsPSD(S, R(9, 1000000000)) IN
       IF fine THEN Held(ev, [ev.a EXCEPT !.mu = <<IF ev.kind = "log" THEN SimpleMean(mu, S) ELSE mu>>,
                                          !.cov = <<IF ev.kind = "log" THEN SimpleCov(mu, S) ELSE S>>], ev.labs, Tol12)
       ELSE IF ev.kind = "log" THEN Base(ev)
       ELSE Held(ev, [ev.a EXCEPT !.cov = d.cov], ev.labs, Tol12) \cup
            {<<"indefinite-repaired", d.cov # <<>> /\ IsMat(d.cov[1], Len(S), Len(S)) /\ Repaired(S, d.cov[1], Tol12)>>}
JudgePrices(ev) ==
  IF ~GoodPrices(ev.P) THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE LET a == [mu |-> <<>>, cov |-> <<>>, R |-> <<Returns(ev.P, "simple")>>, p |-> <<>>] IN Held(ev, a, ev.labs, Tol12)
\* one standard posterior, scaled to a horizon
JudgePosterior(ev) ==
  IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE Held(ev, [mu |-> <<VScale(ev.h, ev.mu)>>, cov |-> <<MScale(ev.h, ev.S)>>, R |-> <<>>, p |-> <<>>], ev.labs, Tol12)
\* projected and repriced drivers; ev.inst[i] = [f, on]: the pricing function and the drivers of instrument i
JudgeInvariants(ev) ==
  IF ~(ev.p.k = "none" \/ MassesOk(ev.p.v, Len(ev.H))) \/ ev.h < 1 \/ ev.n < 1 THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE LET p == IF ev.p.k = "none" THEN Uniform(Len(ev.H)) ELSE Normed(ev.p.v)
           K == {[i \in 1..Len(ev.inst) |-> Joint(ev.inst[i].f, [k \in 1..Len(ev.inst[i].on) |-> x[ev.inst[i].on[k]]])] : x \in Sums(ev.H, p, ev.h)}
           d == ev.out.d
       IN IF d.R = <<>> \/ ~IsMat(d.R[1], ev.n, Len(ev.inst)) THEN Base(ev) \cup {<<"scenarios-held", FALSE>>}
          ELSE Held(ev, [mu |-> <<>>, cov |-> <<>>, R |-> d.R, p |-> <<>>], ev.labs, Tol12)
               \cup {<<"scenarios-are-repriced-sums", \A t \in 1..ev.n : \E x \in K : VNear(x, d.R[1][t], RMul(Tol10, RMax(1, ScV(x))))>>,
                     <<"same-seed-same-scenarios", ev.again>>}
JudgeConvert(ev) ==
  IF ev.bad THEN Misfit(ev)
  ELSE IF ev.out.k # "ok" THEN Base(ev) \cup {<<"accepted", FALSE>>}
  ELSE LET X == Filled(ev.P, ev.kind, ev.how) IN
       Base(ev) \cup {<<"one-row-per-pair", Len(ev.out.M) = Len(X)>>,
                      <<"returns-as-filled", MNear(ev.out.M, X, RMul(Tol12, IF X = <<>> THEN R(1, 1) ELSE RMax(1, MaxAbs(X))))>>}
JudgeSeries(ev) ==
  IF ev.bad \/ Len(ev.w) # Len(ev.names) THEN Misfit(ev)
  ELSE Base(ev) \cup {<<"weights-named", ev.out.k = "ok" /\ VEq(ev.out.w, ev.w) /\ ev.out.idx = ev.names>>}

TStart(i) == 0
TJudge(s, ev) ==
  CASE ev.op = "dist" -> JudgeDist(ev) [] ev.op = "scenarios" -> JudgeScen(ev) [] ev.op = "moments" -> JudgeMoments(ev)
  []   ev.op = "prices" -> JudgePrices(ev) [] ev.op = "posterior" -> JudgePosterior(ev) [] ev.op = "invariants" -> JudgeInvariants(ev)
  []   ev.op = "convert" -> JudgeConvert(ev) [] ev.op = "series" -> JudgeSeries(ev) [] OTHER -> Misfit(ev)
TAdvance(s, ev) == s + 1
=============================================================================
