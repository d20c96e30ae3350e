------------------------------ MODULE HistTrace ------------------------------
(* st = [cons, costs, dists: in force per object, objs: printed state per object,   *)
(*       held: printed caller inputs, fronts: printed received answers]      *)
EXTENDS TraceBase, Hist

TolHist == R(1, 1000000)
Refused(o) == o.k = "err"
Same(s, a) == {<<"objects-unchanged", a.objs = s.objs>>, <<"caller-inputs-unchanged", a.held = s.held>>,
               <<"received-answers-unchanged", SubSeq(a.fronts, 1, Len(s.fronts)) = s.fronts>>}
JAsk(s, ev) ==
  LET c == Eff(ev.c, s.cons[ev.o]) k == Eff(ev.k, s.costs[ev.o]) IN
  Same(s, ev.after) \cup
  {<<"reference-of-this-state", ev.ref.c = c /\ ev.ref.k = k /\ ev.ref.d = s.dists[ev.o]>>} \cup
  (IF ev.ref.ans.k = "err" THEN {<<"refused-as-without-history", SameAnswer(ev.out, ev.ref.ans, TolHist)>>}
   ELSE {<<(IF ev.c # 0 \/ ev.k # 0 THEN "override-answered-as-without-history" ELSE "answered-as-without-history"), SameAnswer(ev.out, ev.ref.ans, TolHist)>>})
JSet(s, ev)    == {<<"caller-inputs-unchanged", ev.after.held = s.held>>, <<"received-answers-unchanged", ev.after.fronts = s.fronts>>,
                   <<"other-objects-unchanged", \A o \in 1..Len(s.objs) : o # ev.o => ev.after.objs[o] = s.objs[o]>>}
JMutate(s, ev) == {<<"objects-unaffected-by-caller-inputs", ev.after.objs = s.objs>>, <<"answers-unaffected-by-caller-inputs", ev.after.fronts = s.fronts>>}
JSpoil(s, ev)  == {<<"objects-unaffected-by-received-answers", ev.after.objs = s.objs>>, <<"caller-inputs-unchanged", ev.after.held = s.held>>,
                   <<"other-answers-unaffected", Len(ev.after.fronts) = Len(s.fronts) /\ \A j \in 1..Len(s.fronts) : j # ev.j => ev.after.fronts[j] = s.fronts[j]>>}
JQuery(s, ev)  == Same(s, ev.after)
TStart(init) == init
TJudge(s, ev) == CASE ev.op = "ask" -> JAsk(s, ev) [] ev.op \in {"setc", "setk", "setd"} -> JSet(s, ev) [] ev.op = "mutate" -> JMutate(s, ev)
                   [] ev.op = "spoil" -> JSpoil(s, ev) [] ev.op \in {"query", "make"} -> JQuery(s, ev)
TAdvance(s, ev) ==
  [cons  |-> IF ev.op = "setc" THEN [s.cons EXCEPT ![ev.o] = ev.c] ELSE s.cons,
   costs |-> IF ev.op = "setk" THEN [s.costs EXCEPT ![ev.o] = ev.k] ELSE s.costs,
   dists |-> IF ev.op = "setd" THEN [s.dists EXCEPT ![ev.o] = 2] ELSE s.dists,
   objs  |-> ev.after.objs, held |-> ev.after.held, fronts |-> ev.after.fronts]
=============================================================================
