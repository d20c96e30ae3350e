------------------------------ MODULE NiwTrace ------------------------------
(* Conformance of the NIW posterior object and of the bundles built on it. *)
EXTENDS TraceBase, Niw

Is(o, names) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in names
Bad(o)       == Is(o, {"ValueError", "TypeError", "RuntimeError"})
Tol          == Tol10

PriorOk(ev)  == /\ Len(ev.mu) >= 1 /\ IsVec(ev.mu, Len(ev.mu)) /\ IsMat(ev.S, Len(ev.mu), Len(ev.mu))
                /\ RGt(ev.t0, 0) /\ RLe(0, ev.nu0) /\ ev.labelsok
SampleOk(b, ev) == /\ IsVec(ev.mu, Len(b.mu)) /\ IsMat(ev.S, Len(b.mu), Len(b.mu)) /\ RGt(ev.n, 0) /\ ev.labelsok
VT(v)        == RMul(Tol, RAdd(1, VMax(TLCEval([i \in 1..Len(v) |-> RAbs(v[i])]))))
NearV(u, v)  == Len(u) = Len(v) /\ VNear(u, v, VT(v))
NearM(A, B)  == Len(A) = Len(B) /\ LET m == VMax(TLCEval([i \in 1..Len(B) |-> VMax(TLCEval([j \in 1..Len(B[i]) |-> RAbs(B[i][j])]))]))
                                   IN \A i \in 1..Len(A) : VNear(A[i], B[i], RMul(Tol, RAdd(m, Tol10)))

JNew(s, ev) ==
  IF ~PriorOk(ev) THEN {<<"bad-prior-refused", Bad(ev.out)>>}
  ELSE {<<"prior-accepted", ev.out.k = "ok">>}
Prior(ev) == [mu |-> ev.mu, S |-> ev.S, t |-> ev.t0, nu |-> ev.nu0]

JUpdate(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF s.ph = "post" THEN {<<"updated-only-once", Is(ev.out, {"RuntimeError"})>>}
  ELSE IF ~SampleOk(s.b, ev) THEN {<<"bad-sample-refused", Is(ev.out, {"ValueError", "TypeError"})>>}
  ELSE IF ev.out.k # "ok" THEN {<<"sample-accepted", FALSE>>}
  ELSE LET b == TLCEval(Update(s.b, [mu |-> ev.mu, S |-> ev.S, n |-> ev.n])) IN
  {<<"posterior-counts", REq(ev.out.t, b.t) /\ REq(ev.out.nu, b.nu)>>,
   <<"posterior-mean", NearV(ev.out.mu, b.mu)>>,
   <<"posterior-scale", NearM(ev.out.S, b.S)>>,
   <<"labels", ev.out.names = s.names>>}

JGet(s, ev) ==
  IF ev.what = "is_updated" THEN {<<"is-updated", ev.out.k = "ok" /\ (ev.out.flag <=> s.ph = "post")>>}
  ELSE IF s.ph # "post" THEN {<<"unavailable-before-update", Is(ev.out, {"RuntimeError"})>>}
  ELSE IF ev.what \in {"S_mu", "radius_mu"} /\ ~SMuOk(s.b) THEN {<<"undefined-refused", Is(ev.out, {"ValueError"})>>}
  ELSE IF ev.what \in {"radius_mu", "radius_sigma"} /\ ~(RNum(ev.p) /\ RGt(ev.p, 0) /\ RLt(ev.p, 1)) THEN
       {<<"bad-level-refused", Is(ev.out, {"ValueError", "TypeError"})>>}
  ELSE IF ev.out.k # "ok" THEN {<<"available-after-update", FALSE>>}
  ELSE CASE ev.what = "mu_ce"    -> {<<"mean-estimator", NearV(ev.out.mu, s.b.mu)>>, <<"labels", ev.out.names = s.names>>}
         [] ev.what = "sigma_ce" -> {<<"covariance-estimator", NearM(ev.out.S, SigmaCe(s.b))>>, <<"labels", ev.out.names = s.names>>}
         [] ev.what = "S_mu"     -> {<<"mean-uncertainty", NearM(ev.out.S, SMu(s.b))>>, <<"labels", ev.out.names = s.names>>}
         [] ev.what = "radius_mu"    -> {<<"credibility-radius-mean", RadiusMuOk(s.b, ev.p, ev.out.x)>>}
         [] ev.what = "radius_sigma" -> {<<"credibility-factor-covariance", RadiusSigmaOk(s.b, ev.p, ev.out.x)>>}

\* ---- bundles: moments, and unit conversions of the mean uncertainty -----
JBundle(s, ev) ==
  LET pr == Prior(ev.prior)
      b == TLCEval(Update(pr, [mu |-> ev.sample.mu, S |-> ev.sample.S, n |-> ev.sample.n])) IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.out.k # "ok" THEN {<<"bundle-available", (ev.needsmu /\ ~SMuOk(b)) /\ Is(ev.out, {"ValueError"})>>}
  ELSE {<<"bundle-mean", NearV(ev.out.mu, b.mu)>>, <<"bundle-covariance", NearM(ev.out.S, SigmaCe(b))>>,
        <<"bundle-uncertainty", ev.needsmu => (SMuOk(b) /\ NearM(ev.out.Smu, SMu(b)))>>,
        <<"labels", ev.out.names = ev.names>>}
JBGet(s, ev) ==
  IF ev.out.k # "ok" THEN
    (IF ev.what \in {"radius_mu", "radius_sigma"} /\ ~(RNum(ev.p) /\ RGt(ev.p, 0) /\ RLt(ev.p, 1))
     THEN {<<"bad-level-refused", Is(ev.out, {"ValueError", "TypeError"})>>} ELSE {<<"available-after-update", FALSE>>})
  ELSE LET b == s.b h == ev.h sm == SMu(b) N == Len(b.mu) IN
  CASE ev.what = "log" -> {<<"log-uncertainty-scales-with-square-of-horizon", NearM(ev.out.S, MScale(RSq(h), sm))>>, <<"labels", ev.out.names = s.names>>}
    [] ev.what = "simple" ->
        LET g == TLCEval([i \in 1..N |-> RExp(IF ev.exact THEN RMul(h, RAdd(b.mu[i], RDiv(SigmaCe(b)[i][i], 2))) ELSE RMul(h, b.mu[i]))])
            want == TLCEval([i \in 1..N |-> [j \in 1..N |-> RMul(RMul(g[i], g[j]), RMul(RSq(h), sm[i][j]))]])
        IN {<<IF ev.exact THEN "simple-uncertainty-exact" ELSE "simple-uncertainty", NearM(ev.out.S, want)>>, <<"labels", ev.out.names = s.names>>}
    [] ev.what = "sigma1" -> {<<"scale-matrix", NearM(ev.out.S, b.S)>>, <<"labels", ev.out.names = s.names>>}
    [] ev.what = "radius_mu"    -> {<<"credibility-radius-mean", RadiusMuOk(b, ev.p, ev.out.x)>>}
    [] ev.what = "radius_sigma" -> {<<"credibility-factor-covariance", RadiusSigmaOk(b, ev.p, ev.out.x)>>}
    [] ev.what = "mu_ce" -> {<<"mean-estimator", NearV(ev.out.mu, b.mu)>>}
    [] ev.what = "wrapper" ->        \* the robust wrapper built from the bundle, horizon h
         {<<"wrapper-mean-linear", NearV(ev.out.mu, VScale(h, b.mu))>>, <<"wrapper-covariance-linear", NearM(ev.out.S, MScale(h, SigmaCe(b)))>>,
          <<"wrapper-uncertainty-quadratic", NearM(ev.out.Smu, MScale(RSq(h), sm))>>, <<"labels", ev.out.names = s.names>>}

TStart(init) == [ph |-> "none", b |-> <<>>, names |-> <<>>]
TJudge(s, ev) == CASE ev.op = "new" -> JNew(s, ev) [] ev.op = "update" -> JUpdate(s, ev) [] ev.op = "get" -> JGet(s, ev)
                   [] ev.op = "bundle" -> JBundle(s, ev) [] ev.op = "bget" -> JBGet(s, ev)
TAdvance(s, ev) ==
  CASE ev.op = "new" /\ ev.out.k = "ok" -> [ph |-> "prior", b |-> Prior(ev), names |-> ev.names]
    [] ev.op = "update" /\ ev.out.k = "ok" -> [s EXCEPT !.ph = "post", !.b = Update(s.b, [mu |-> ev.mu, S |-> ev.S, n |-> ev.n])]
    [] ev.op = "bundle" /\ ev.out.k = "ok" ->
         [ph |-> "post", b |-> Update(Prior(ev.prior), [mu |-> ev.sample.mu, S |-> ev.sample.S, n |-> ev.sample.n]), names |-> ev.names]
    [] OTHER -> s
=============================================================================
