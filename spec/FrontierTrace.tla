---------------------------- MODULE FrontierTrace ----------------------------
(* Conformance of frontier queries: the frontier is fixed at the start of  *)
(* the session; every query is answered by a stored column meeting it and  *)
(* the table recorded after the query is still the same.                   *)
EXTENDS TraceBase, Frontier

ErrOf(o, names) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in names
Answered(F, q, o) == \E i \in Answers(F, q) :
    /\ VEq(o.w, F.W[i]) /\ REq(o.ret, F.ret[i]) /\ REq(o.risk, RiskShown(F, q)[i])
SomeColumn(F, o) == \E i \in Cols(F) : VEq(o.w, F.W[i])

JAsk(F, ev) ==
  LET q == ev.q o == ev.out IN
  {<<"frontier-unchanged", ev.table = F.table>>} \cup
  IF ~HasRisk(F, q.label) THEN {<<"unknown-risk-measure-refused", ErrOf(o, {"KeyError", "ValueError", "InfeasibleOptimizationError"})>>}
  ELSE IF Answers(F, q) = {} THEN {<<"unattainable-refused", ErrOf(o, {"ValueError", "InfeasibleOptimizationError"})>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"labels", o.names = F.names>>, <<"a-stored-column", SomeColumn(F, o)>>, <<q.kind, Answered(F, q, o)>>}
JPct(F, ev) ==
  {<<"frontier-unchanged", ev.table = F.table>>} \cup
  IF ~HasRisk(F, ev.label) THEN {<<"unknown-risk-measure-refused", ErrOf(ev.out, {"KeyError", "ValueError"})>>}
  ELSE {<<"percentile-ranks", ev.out.k = "ok" /\ IsPercentiles(F, ev.label, ev.out.v)>>}
JIndex(F, ev) ==
  {<<"frontier-unchanged", ev.table = F.table>>} \cup
  IF ~PctOk(ev.x) THEN {<<"unattainable-refused", ErrOf(ev.out, {"ValueError"})>>}
  ELSE IF ev.out.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"percentile-index", (ev.out.i + 1) \in NearestPct(F, ev.label, PctOf(ev.x))>>}
\* columns are given in Python numbering; -1 is the last
At(F, c) == IF c < 0 THEN Len(F.ret) + c + 1 ELSE c + 1
JFrame(F, ev) ==
  LET sel == IF ev.all THEN [i \in Cols(F) |-> i - 1] ELSE ev.cols
      bad == \E k \in 1..Len(sel) : At(F, sel[k]) \notin Cols(F) IN
  {<<"frontier-unchanged", ev.table = F.table>>} \cup
  IF bad \/ (ev.labels # <<"none">> /\ Len(ev.labels) # Len(sel)) THEN {<<"bad-selection-refused", ErrOf(ev.out, {"IndexError", "ValueError"})>>}
  ELSE IF ev.out.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"frame-columns", Len(ev.out.W) = Len(sel) /\ \A k \in 1..Len(sel) : VEq(ev.out.W[k], F.W[At(F, sel[k])])>>,
        <<"frame-labels", ev.out.names = F.names>>,
        <<"frame-column-labels", ev.labels = <<"none">> \/ ev.out.cols = <<"none">> \/ ev.out.cols = ev.labels>>}
JAlloc(F, ev) ==
  {<<"frontier-unchanged", ev.table = F.table>>} \cup
  IF ev.col < 0 \/ ev.col >= Len(F.ret) THEN {<<"bad-selection-refused", ErrOf(ev.out, {"IndexError", "ValueError"})>>}
  ELSE {<<"allocates-that-column", ev.out = ev.direct>>}
JBuild(F, ev) ==
  LET n == ev.n m == ev.m
      ok == ev.wcols = m /\ ev.nr = m /\ ev.ns = m /\ (ev.nn = 0 \/ ev.nn = n) /\ (ev.na = 0 \/ ev.na = m) IN
  {<<"inconsistent-table-refused", (~ok => ErrOf(ev.out, {"ValueError"})) /\ (ok => ev.out.k = "ok")>>}

TStart(init) == init
TJudge(F, ev) == CASE ev.op = "ask" -> JAsk(F, ev) [] ev.op = "pct" -> JPct(F, ev) [] ev.op = "index" -> JIndex(F, ev)
                   [] ev.op = "frame" -> JFrame(F, ev) [] ev.op = "alloc" -> JAlloc(F, ev) [] ev.op = "build" -> JBuild(F, ev)
TAdvance(F, ev) == F
=============================================================================
