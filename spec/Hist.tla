-------------------------------- MODULE Hist --------------------------------
(* A portfolio object over time.  It owns a copy of what it was built from, *)
(* the constraints and costs in force, and nothing else; what it hands out  *)
(* belongs to the caller.  A request is answered from the distribution in   *)
(* force and the constraints and costs of the call, or else those in force. *)
EXTENDS Lin, TLC

Eff(asked, inforce) == IF asked # 0 THEN asked ELSE inforce
\* what a request depends on
Key(req, c, k, d) == <<req, c, k, d>>

\* two answers agree: the same refusal, or the same labelled numbers
Figures(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                      (RNum(a[i]) <=> RNum(b[i])) /\ (RNum(a[i]) => RNear(a[i], b[i], RMul(t, RAdd(1, RAbs(b[i])))))
SameAnswer(a, b, t) ==
  /\ a.k = b.k
  /\ a.k = "err" => a.mro = b.mro
  /\ a.k = "ok" => /\ a.names = b.names /\ a.labels = b.labels
                   /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Figures(a.v[i], b.v[i], t)
=============================================================================
