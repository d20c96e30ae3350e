---------------------------- MODULE StorageTrace ----------------------------
EXTENDS TraceBase, Storage

Tol9 == R(1, 1000000000)
TolOf(c) == IF c = "solved" THEN R(1, 20000) ELSE IF c = "iterated" THEN R(1, 1000000) ELSE Tol9
SameRows(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : REq(A[i][j], B[i][j])
Close(a, b, t) == IF a = "nan" \/ b = "nan" THEN a = b ELSE RNear(a, b, RMul(t, RMax(1, RAbs(b))))
SameAnswer(o, b, t) ==
  IF b.k = "err" THEN o.k = "err"
  ELSE /\ o.k = "ok" /\ Len(o.v) = Len(b.v)
       /\ \A i \in 1..Len(b.v) : Len(o.v[i]) = Len(b.v[i]) /\ \A j \in 1..Len(b.v[i]) : Close(o.v[i][j], b.v[i][j], t)
JAsk(s, ev) ==
  {<<"holds-the-same-numbers", \A i \in 1..Len(ev.inputs) : InBounds(ev.inputs[i]) /\ SameRows(Read(ev.inputs[i]), s.ref[i])>>,
   <<"ordinary-arrays-get-an-answer", s.base.k = "ok">>,
   <<"storage-does-not-matter", SameAnswer(ev.out, s.base, TolOf(s.tol))>>,
   <<"stores-left-as-they-were", ev.same>>}
TStart(init) == init
TJudge(s, ev) == JAsk(s, ev)
TAdvance(s, ev) == s
=============================================================================
