------------------------------- MODULE BlTrace -------------------------------
(* Conformance of Black-Litterman posteriors.  A session holds one prior   *)
(* and asks several questions about it; `last` is the previous answer of a *)
(* ladder (one more view, or more confidence in the same single view).     *)
EXTENDS TraceBase, Bl

Bad(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError", "LinAlgError", "IndexError", "KeyError"}
Mag(v) == VMax(TLCEval([i \in 1..Len(v) |-> RAbs(v[i])]))
MagM(A) == VMax(TLCEval([i \in 1..Len(A) |-> Mag(A[i])]))
NearV(u, v, t) == Len(u) = Len(v) /\ VNear(u, v, RMul(t, RAdd(Mag(v), t)))
NearM(A, B, t) == Len(A) = Len(B) /\ LET m == RMul(t, MagM(B)) IN \A i \in 1..Len(A) : VNear(A[i], B[i], m)

Value(v, m) == RDot(v.p, m)
JAsk(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.junk THEN {<<"inconsistent-refused", Bad(ev.out)>>}
  ELSE LET b == ev.b vs == ev.vs o == ev.om
           want == TLCEval(Posterior(b, vs, OmegaOf(b, vs, o))) IN
    IF ~want.ok THEN {<<"singular-system", Bad(ev.out) \/ ev.out.k = "ok">>}
    ELSE IF ev.out.k # "ok" THEN {<<"answered", FALSE>>}
    ELSE LET mu == ev.out.mu cov == ev.out.cov IN
      {<<"posterior-mean", NearV(mu, want.mu, Tol8)>>, <<"posterior-covariance", NearM(cov, want.cov, Tol8)>>,
       <<"labels", ev.out.names = ev.names>>, <<"covariance-symmetric", Symmetric(cov)>>}
      \cup (IF Len(vs) = 0 THEN {<<"no-views-is-the-prior", NearV(mu, PriorMean(b), Tol12)>>} ELSE {})
      \cup (IF Len(vs) = 1 /\ o.kind = "idzorek" /\ REq(o.conf[1], 1)
            THEN LET v == vs[1] IN {<<"full-confidence-meets-the-view",
                     RLe(RAbs(RSub(v.q, Value(v, mu))), RMul(RMul(R(1, 100000), RMax(1, RDiv(1, b.tau))), RAdd(RAbs(RSub(v.q, Value(v, PriorMean(b)))), R(1, 100000000))))>>} ELSE {})
      \cup (IF ev.ladder = "conf" /\ Len(s.last) > 0
            THEN LET v == vs[1] was == Value(v, s.last[1].mu) now == Value(v, mu) gap == RSub(v.q, was) IN
                 {<<"confidence-moves-towards-the-view",
                    /\ RLe(RNeg(Tol12), RMul(gap, RSub(now, was)))
                    /\ RLe(RAbs(RSub(v.q, now)), RAdd(RAbs(gap), Tol12))>>} ELSE {})
      \cup (IF ev.ladder = "views" /\ Len(s.last) > 0 /\ Len(vs) > 1
            THEN {<<"another-view-never-adds-uncertainty", IsPSD(MSub(s.last[1].cov, cov), RMul(Tol10, MagM(cov)))>>} ELSE {})

TStart(init) == [last |-> <<>>]
TJudge(s, ev) == JAsk(s, ev)
TAdvance(s, ev) == IF ev.junk \/ ev.out.k # "ok" \/ ev.ladder = "none" THEN [last |-> <<>>] ELSE [last |-> <<[mu |-> ev.out.mu, cov |-> ev.out.cov]>>]
=============================================================================
