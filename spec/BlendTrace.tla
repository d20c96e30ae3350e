----------------------------- MODULE BlendTrace -----------------------------
(* Conformance of averaging, stacking and percentile selections, and of      *)
(* whole ensemble runs over shared specifications.                           *)
EXTENDS TraceBase, Blend

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "KeyError", "IndexError", "InfeasibleOptimizationError", "RuntimeError", "TypeError"}
TolBlend == Tol12

\* what a blend of entries must be: a set of <<clause, holds>>
Result(es, how, ws, snames, L, o, wit, opt) ==
  LET n == Count(es) IN
  IF es = <<>> THEN {<<"no-candidate-refused", Refused(o)>>}
  ELSE IF \E k \in 1..Len(es) : Picks(es[k]) = {} THEN {<<"bad-selection-refused", Refused(o)>>}
  ELSE IF ~SameAssets(es) THEN {<<"other-assets-refused", Refused(o)>>}
  ELSE IF how = "mean" /\ ~GoodWeights(ws, n, snames) THEN {<<"bad-weights-refused", Refused(o)>>}
  ELSE IF how = "stack" /\ ~GoodFolds(L, n) THEN {<<"bad-folds-refused", Refused(o)>>}
  ELSE IF ~SameOrder(es) /\ o.k = "err" THEN {<<"reordered-refused", Refused(o)>>}
  ELSE IF how = "mean" /\ ws # <<>> /\ ~Exactly(ws[1], snames) /\ o.k = "err" THEN {<<"surplus-weights-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE LET base == Base(es)
           named == IF base = <<>> THEN o.names = <<>>
                    ELSE Len(o.names) = Len(base) /\ {o.names[i] : i \in 1..Len(o.names)} = {base[i] : i \in 1..Len(base)}
           fit == Len(o.v) = Dim(es[1]) /\ IsVec(o.v, Dim(es[1]))
       IN  {<<"asset-names", named>>, <<"one-weight-per-asset", fit>>} \cup
           IF ~named \/ ~fit THEN {}
           ELSE LET v == Aligned(o.names, base, o.v) rs == Readings(es, base) IN
                IF how = "mean" THEN {<<"weighted-mean", \E X \in rs : VClose(v, Mean(X, Share(ws, n, snames)), TolBlend)>>,
                                      <<"reordered-aligned", TRUE>>}
                ELSE LET sure == {X \in rs : Certified(X, L, opt)} IN
                     IF sure = {} THEN {<<"uncertified", TRUE>>}
                     ELSE {<<"least-criterion-in-the-hull", \E X \in sure : Stacked(X, L, v, wit, opt)>>}

JBlend(ev) == {<<"inputs-unchanged", ev.same>>} \cup Result(ev.es, ev.how, ev.ws, ev.snames, ev.L, ev.out, ev.wit, ev.opt)
JPct(ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~PctOk(ev.x) \/ \E k \in 1..Len(ev.fs) : ~HasRisk(ev.fs[k], ev.label) THEN {<<"bad-percentile-refused", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"percentile-selections", Len(ev.out.picks) = Len(ev.fs) /\ \A k \in 1..Len(ev.fs) :
           Len(ev.out.picks[k]) = 1 /\ (ev.out.picks[k][1] + 1) \in NearestPct(ev.fs[k], ev.label, PctOf(ev.x))>>}

\* ---- ensemble runs: su = [refs |-> specs, held |-> what the caller holds] ----
Chosen(F, q) == IF q.kind = "column" THEN (IF At0(Len(F.ret), q.i) \in Cols(F) THEN {At0(Len(F.ret), q.i)} ELSE {})
                ELSE IF ~HasRisk(F, q.label) THEN {}
                ELSE Answers(F, IF q.label = "" /\ q.kind \in {"at_risk", "closest_risk", "at_percentile"} THEN [q EXCEPT !.label = F.implied] ELSE q)
SameTable(F, G) == /\ Len(F.W) = Len(G.W) /\ F.names = G.names /\ F.measure = G.measure
                   /\ \A j \in 1..Len(F.W) : VNear(F.W[j], G.W[j], R(1, 10000))
                   /\ VNear(F.ret, G.ret, R(1, 100000)) /\ VNear(F.risk, G.risk, R(1, 100000))
                   /\ {F.alts[k].name : k \in 1..Len(F.alts)} = {G.alts[k].name : k \in 1..Len(G.alts)}
                   /\ \A j \in 1..Len(F.alts) : \E k \in 1..Len(G.alts) : F.alts[j].name = G.alts[k].name /\ VNear(F.alts[j].v, G.alts[k].v, R(1, 100000))
Entries(su, ev) == [k \in 1..Len(ev.l) |->
   IF ev.combine = "selected" THEN [kind |-> "vector", names |-> ev.out.sel[k].names, W |-> <<ev.out.sel[k].v>>, risk |-> <<>>, pick |-> <<>>]
   ELSE [kind |-> "frontier", names |-> ev.out.fronts[k].F.asset, W |-> ev.out.fronts[k].F.W, risk |-> ev.out.fronts[k].F.risk, pick |-> su.refs[ev.l[k]].pick]]
RefEntries(su, ev) == [k \in 1..Len(ev.l) |-> LET r == su.refs[ev.l[k]] IN
   [kind |-> "vector", names |-> r.F.asset, W |-> <<r.F.W[1]>>, risk |-> <<>>, pick |-> <<>>]]
BadPick(su, ev) == ev.combine = "frontier" /\ \E k \in 1..Len(ev.l) : LET r == su.refs[ev.l[k]] IN
   r.pick # <<>> /\ (Len(r.pick[1]) # 1 \/ At0(Len(r.F.ret), r.pick[1][1]) \notin Cols(r.F))
FoldsOf(ev) == LET n == Len(ev.l) IN IF ev.L = <<>> THEN (IF n < 3 THEN n ELSE 3) ELSE IF ev.L[1] > n THEN n ELSE ev.L[1]
JRun(su, ev) ==
  LET o == ev.out n == Len(ev.l) refs == [k \in 1..n |-> su.refs[ev.l[k]]]
      wants(h) == \E i \in 1..Len(ev.how) : ev.how[i] = h
      uniq == \A j, k \in 1..n : refs[j].name = refs[k].name => j = k
      snames == [k \in 1..n |-> refs[k].name]
      unat == \E k \in 1..n : ~refs[k].fails /\ Chosen(refs[k].F, refs[k].q) = {}
  IN
  {<<"caller-state-unchanged", ev.held = su.held>>} \cup
  IF n = 0 THEN {<<"no-candidate-refused", Refused(o)>>}
  ELSE IF \E k \in 1..n : refs[k].fails THEN {<<"failed-build-raises", Refused(o)>>}
  ELSE IF unat THEN {<<"unattainable-selection-raises", Refused(o)>>}
  ELSE IF ~uniq THEN {<<"same-name-refused", Refused(o)>>}
  ELSE IF ev.bad THEN {<<"unknown-option-refused", Refused(o)>>}
  ELSE IF ev.starved /\ wants("stack") /\ o.k = "err" THEN {<<"unfinished-stack-raises", Refused(o)>>}
  ELSE IF ev.how # <<>> /\ (~SameAssets(RefEntries(su, ev)) \/ BadPick(su, ev)) THEN {<<"other-assets-refused", Refused(o)>>}
  ELSE IF ev.how = <<>> /\ o.k = "err" /\ ~SameAssets(RefEntries(su, ev)) THEN {<<"other-assets-refused", Refused(o)>>}
  ELSE IF wants("mean") /\ ~GoodWeights(ev.ws, n, snames) THEN {<<"bad-weights-refused", Refused(o)>>}
  ELSE IF wants("stack") /\ FoldsOf(ev) < 2 THEN {<<"bad-folds-refused", Refused(o)>>}
  ELSE IF (~SameOrder(RefEntries(su, ev)) \/ Cardinality({k \in 1..n : refs[k].F.asset = <<>>}) \in 1..n - 1) /\ o.k = "err" THEN {<<"reordered-refused", Refused(o)>>}
  ELSE IF wants("mean") /\ ev.ws # <<>> /\ ~Exactly(ev.ws[1], snames) /\ o.k = "err" THEN {<<"surplus-weights-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE LET complete == /\ Len(o.fronts) = n /\ \A k \in 1..n : o.fronts[k].name = refs[k].name
                       /\ Len(o.sel) = n /\ \A k \in 1..n : o.sel[k].name = refs[k].name
                       /\ Len(o.ens) = Len(ev.how) /\ \A h \in {"mean", "stack"} : wants(h) <=> \E k \in 1..Len(o.ens) : o.ens[k].key = h
       IN  {<<"every-spec-and-blend-reported", complete>>} \cup
           IF ~complete THEN {}
           ELSE {<<"its-own-frontier", \A k \in 1..n : SameTable(o.fronts[k].F, refs[k].F)>>,
                 <<"metadata-kept", \A k \in 1..n : o.meta[k] = refs[k].meta>>,
                 <<"the-selection-asked-for", \A k \in 1..n :
                     LET F == o.fronts[k].F al == Aligned(o.sel[k].names, F.asset, o.sel[k].v) IN
                     (F.asset = <<>> \/ {o.sel[k].names[i] : i \in 1..Len(o.sel[k].names)} = {F.asset[i] : i \in 1..Len(F.asset)})
                     /\ \E i \in Chosen(F, refs[k].q) : VEq(al, F.W[i])>>} \cup
                UNION {LET e == o.ens[k] IN Result(Entries(su, ev), e.key, ev.ws, snames, FoldsOf(ev), [k |-> "ok", mro |-> <<>>, names |-> e.names, v |-> e.v], ev.wit, ev.opt)
                       : k \in 1..Len(o.ens)}
\* a specification used by itself
JUse(su, ev) ==
  LET r == su.refs[ev.s] o == ev.out IN
  {<<"caller-state-unchanged", ev.held = su.held>>} \cup
  IF r.fails THEN {<<"failed-build-raises", Refused(o)>>}
  ELSE IF Chosen(r.F, r.q) = {} THEN {<<"unattainable-selection-raises", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"its-own-frontier", SameTable(o.F, r.F)>>,
        <<"the-selection-asked-for", \E i \in Chosen(o.F, r.q) : VEq(o.v, o.F.W[i])>>}

TStart(init) == init
TJudge(s, ev) == CASE ev.op = "blend" -> JBlend(ev) [] ev.op = "pct" -> JPct(ev) [] ev.op = "run" -> JRun(s, ev)
                   [] ev.op = "use" -> JUse(s, ev) [] ev.op = "bad" -> {<<"malformed-spec-refused", Refused(ev.out)>>, <<"caller-state-unchanged", ev.held = s.held>>}
                   [] ev.op = "spoil" -> {<<"caller-state-unchanged", ev.held = s.held>>}
TAdvance(s, ev) == s
=============================================================================
