------------------------------ MODULE EpTrace ------------------------------
(* Conformance of entropy pooling.  A session follows one belief through    *)
(* its stages: each `ask` is a processor holding the views stated so far,   *)
(* and the state remembers the posterior of the stage before, which is the  *)
(* reference (simultaneous) or the prior (sequential) of the next stage.    *)
EXTENDS TraceBase, Ep

Is(o, names) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in names
Bad(o)       == Is(o, {"ValueError", "TypeError", "RuntimeError", "KeyError"})
MeetTol      == Tol4
GapTol       == R(2, 10000)
Mild(w, p)   == \A t \in 1..Len(w) : RLe(p[t], RMul(20, w[t])) /\ RLe(w[t], RMul(20, p[t]))

\* what any answer to conditions cs over base p must be
Answered(p, cs, ev, pre) ==
  LET n == Len(p) IN
  IF ev.out.k # "ok" THEN
    {<<pre \o "refusal-is-an-error", Bad(ev.out)>>,
     <<pre \o "meetable-accepted", ~(Len(ev.wit) = n /\ IsVec(ev.wit, n) /\ Mild(ev.wit, p) /\ AllMet(cs, ev.wit, Tol10))>>}
  ELSE LET q == ev.out.q IN
    {<<pre \o "probability-vector", Proper(q, n)>>, <<pre \o "views-met", AllMet(cs, q, MeetTol)>>}
    \cup (IF Proper(q, n) /\ Strict(q) /\ RLe(ev.ymag, 30)      \* views close to impossible are judged by views-met alone
          THEN {<<pre \o "least-relative-entropy", Signs(cs, ev.y) /\ RLe(Gap(q, p, cs, ev.y, ev.c0), RMul(GapTol, RAdd(1, ev.ymag)))>>}
          ELSE {})
    \cup (IF Len(ev.wit) = n /\ AllMet(cs, ev.wit, Tol10) /\ Proper(ev.wit, n) /\ Mild(ev.wit, p)
          THEN {<<pre \o "no-farther-than-witness", RLeT(KL(q, p), KL(ev.wit, p), R(1, 1000))>>} ELSE {})

JRaw(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~StrictlyUsable(ev.p, Len(ev.p)) \/ ev.junk THEN {<<"bad-input-refused", Bad(ev.out)>>}
  ELSE Answered(TLCEval(Normal(ev.p)), ev.cs, ev, "raw-")

\* ---- processors -------------------------------------------------------------
IndexOf(names, a) == CHOOSE i \in 1..Len(names) : names[i] = a
Known(names, a)   == \E i \in 1..Len(names) : names[i] = a
TwoNames(v)       == v.kind \in {"rel", "corr"}
KnownView(names, v) == Known(names, v.a) /\ (TwoNames(v) => Known(names, v.b))
TargetOk(v) == /\ RNum(v.t)
               /\ v.kind = "vol" => RGt(v.t, 0)
               /\ v.kind = "var" => RLe(0, v.t)
               /\ v.kind = "corr" => (RLe(-1, v.t) /\ RLe(v.t, 1))
               /\ v.kind = "quant" => (RGt(v.t, 0) /\ RLt(v.t, 1) /\ RNum(v.lvl))
Resolve(names, v) == [kind |-> v.kind, i |-> IndexOf(names, v.a), j |-> IF TwoNames(v) THEN IndexOf(names, v.b) ELSE 1,
                      op |-> v.op, t |-> v.t, lvl |-> v.lvl]
RECURSIVE Keep(_, _)
Keep(vs, ks) == IF Len(vs) = 0 THEN <<>> ELSE IF Head(vs).kind \in ks THEN <<Head(vs)>> \o Keep(Tail(vs), ks) ELSE Keep(Tail(vs), ks)
Kinds(vs)    == {vs[k].kind : k \in 1..Len(vs)}
Stage(k)     == CASE k \in {"mean", "rel"} -> 1 [] k = "vol" -> 2 [] k = "var" -> 3 [] k = "skew" -> 4 [] k = "corr" -> 5 [] k = "quant" -> 6
MaxStage(vs) == LET sg == {Stage(k) : k \in Kinds(vs)} IN CHOOSE m \in sg : \A z \in sg : z <= m
OfStage(m)   == {k \in {"mean", "rel", "vol", "var", "skew", "corr", "quant"} : Stage(k) = m}
Before(m)    == {k \in {"mean", "rel", "vol", "var", "skew", "corr", "quant"} : Stage(k) < m}

PriorOf(ev)  == IF Len(ev.p) = 0 THEN Const(Len(ev.R), R(1, Len(ev.R))) ELSE TLCEval(Normal(ev.p))
\* [ok, base, cs]: what the last stage of the processor solves
Plan(s, ev) ==
  LET p == PriorOf(ev)
      vs == TLCEval([k \in 1..Len(ev.vs) |-> Resolve(ev.names, ev.vs[k])])
      same == s.R = ev.R /\ s.p = ev.p /\ s.seq = ev.seq /\ s.tails = <<>>
  IN
  IF Len(ev.tails) > 0 THEN
     [ok |-> s.R = ev.R /\ s.p = ev.p /\ s.seq = ev.seq /\ s.vs = ev.vs /\ Append(s.tails, ev.tails[Len(ev.tails)]) = ev.tails,
      base |-> s.q, cs |-> IF ev.seq THEN <<>> ELSE s.cs]
  ELSE IF Len(vs) = 0 THEN [ok |-> TRUE, base |-> p, cs |-> <<>>]
  ELSE IF ev.seq THEN
     LET m == MaxStage(ev.vs) early == Keep(ev.vs, Before(m)) base == IF early = <<>> THEN p ELSE s.q IN
     [ok |-> early = <<>> \/ (same /\ s.vs = early), base |-> base, cs |-> Conds(ev.R, Keep(vs, OfStage(m)), TLCEval(Ref(ev.R, base)))]
  ELSE
     LET ms == Keep(ev.vs, {"mean", "rel"})
         two == ms # <<>> /\ Kinds(ev.vs) \cap {"vol", "var", "skew", "corr"} # {}
     IN [ok |-> ~two \/ (same /\ s.vs = ms), base |-> p,
         cs |-> Conds(ev.R, vs, TLCEval(Ref(ev.R, IF two THEN s.q ELSE p)))]

Tail1(ev) == ev.tails[Len(ev.tails)]
\* tails are the k worst scenarios of the asset, 2 <= k < S (values distinct)
WorstSets(Rm, i) == LET x == Col(Rm, i) IN
  {w \in {TLCEval({t \in 1..Len(x) : RLe(x[t], x[c])}) : c \in 1..Len(x)} : Cardinality(w) >= 2 /\ Cardinality(w) < Len(x)}
TailCs(ev, w) == LET tv == Tail1(ev) IN TailConds(ev.R, IndexOf(ev.names, tv.a), w, tv.gamma, tv.c)

JAsk(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.junk \/ (Len(ev.p) > 0 /\ ~StrictlyUsable(ev.p, Len(ev.R)))
     \/ ~(\A k \in 1..Len(ev.vs) : KnownView(ev.names, ev.vs[k]) /\ TargetOk(ev.vs[k]))
     \/ ~(\A k \in 1..Len(ev.tails) : Known(ev.names, ev.tails[k].a) /\ RNum(ev.tails[k].c))
  THEN {<<"bad-view-refused", Bad(ev.out)>>}
  ELSE LET pl == TLCEval(Plan(s, ev)) IN
  {<<"chain", pl.ok>>} \cup
  (IF Len(ev.tails) > 0 THEN
     IF ev.out.k # "ok" THEN {<<"tail-refusal-is-an-error", Bad(ev.out)>>}
     ELSE LET fits == {w \in WorstSets(ev.R, IndexOf(ev.names, Tail1(ev).a)) : AllMet(TailCs(ev, w), ev.out.q, MeetTol)}
              best == {w \in fits : Cardinality(w) = ev.cut} IN
          {<<"tail-view-met", fits # {}>>} \cup
          (IF best = {} THEN {} ELSE LET w == CHOOSE z \in best : TRUE IN Answered(pl.base, TailCs(ev, w) \o pl.cs, ev, "tail-"))
   ELSE Answered(pl.base, pl.cs, ev, ""))
  \cup (IF ev.out.k = "ok" /\ Len(ev.vs) = 0 /\ Len(ev.tails) = 0 THEN {<<"no-views-is-the-prior", VNear(ev.out.q, PriorOf(ev), Tol12)>>} ELSE {})
  \cup (IF ev.out.k = "ok" /\ Proper(ev.out.q, Len(ev.R)) THEN
          LET mu == TLCEval(Mean(ev.R, ev.out.q)) cv == TLCEval(Cov(ev.R, ev.out.q))
              mg == RAdd(VMax(TLCEval([t \in 1..Len(ev.R) |-> VMax(TLCEval([i \in 1..Len(mu) |-> RAbs(ev.R[t][i])]))])), RPow(R(1, 10), 12)) IN
          {<<"posterior-mean", Len(ev.out.mean) = Len(mu) /\ VNear(ev.out.mean, mu, RMul(Tol8, mg))>>,
           <<"posterior-covariance", Len(ev.out.cov) = Len(mu) /\ \A i \in 1..Len(mu) : VNear(ev.out.cov[i], cv[i], RMul(Tol8, RSq(mg)))>>,
           <<"labels", ev.out.names = ev.want_names>>, <<"scenarios", ev.out.scen>>} ELSE {})
  \cup (IF ev.out.k = "ok" /\ Len(ev.exact) > 0 THEN {<<"closed-form", VNear(ev.out.q, ev.exact, Tol4)>>} ELSE {})

\* a prior given by moments: reproducible draws, from the moments as named
JSim(s, ev) ==
  {<<"simulated-again", ev.k = "ok" /\ ev.again /\ ev.shape>>}
  \cup (IF ev.k = "ok" THEN {<<"simulated-from-the-prior", ev.args /\ Len(ev.order[1]) = Len(ev.order[2]) /\ VNear(ev.order[1], ev.order[2], Tol10)>>} ELSE {})

Nothing == [q |-> <<>>, R |-> <<>>, p |-> <<>>, seq |-> FALSE, vs |-> <<>>, tails |-> <<>>, cs |-> <<>>]
TStart(init) == Nothing
TJudge(s, ev) == CASE ev.op = "raw" -> JRaw(s, ev) [] ev.op = "ask" -> JAsk(s, ev)
                   [] ev.op = "sim" -> JSim(s, ev)
TAdvance(s, ev) ==
  IF ev.op # "ask" \/ ev.out.k # "ok" \/ ev.junk THEN s
  ELSE LET pl == TLCEval(Plan(s, ev)) IN
       [q |-> ev.out.q, R |-> ev.R, p |-> ev.p, seq |-> ev.seq, vs |-> ev.vs, tails |-> ev.tails,
        cs |-> IF Len(ev.tails) > 0 /\ ev.cut > 0 /\ ~ev.seq
               THEN LET ws == {w \in WorstSets(ev.R, IndexOf(ev.names, Tail1(ev).a)) : Cardinality(w) = ev.cut} IN
                    IF ws = {} THEN pl.cs ELSE TailCs(ev, CHOOSE w \in ws : TRUE) \o pl.cs
               ELSE pl.cs]
=============================================================================
