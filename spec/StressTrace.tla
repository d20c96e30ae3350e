----------------------------- MODULE StressTrace -----------------------------
(* Conformance of the stress tests.  An event carries the book, the          *)
(* scenarios, both distributions (or the recipe of the stressed one), the    *)
(* transformation, and the reported table row by row.  The state remembers   *)
(* the nominal figures of the session: every stress of the same book on the  *)
(* same market starts from the same nominal figures.                         *)
EXTENDS TraceBase, Book

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError"}

GivenOk(m, n) == m.k = "none" \/ (IsVec(m.v, n) /\ (\A i \in 1..n : RLe(0, m.v[i])) /\ RGt(RSum(m.v), 0))
RecipeOk(m, n) == CASE m.k = "decay"  -> RNum(m.hl) /\ RGt(m.hl, 0)
                  []   m.k = "kernel" -> /\ IsVec(m.focus, n) /\ RNum(m.c)
                                         /\ (m.h = <<>> \/ (RNum(m.h[1]) /\ RGt(m.h[1], 0)))
                  []   OTHER          -> GivenOk(m, n)
Masses(m, n) == CASE m.k = "none"   -> Uniform(n)
                []   m.k = "decay"  -> DecayMasses(n, m.hl)
                []   m.k = "kernel" -> KernelMasses(m.focus, IF m.h = <<>> THEN Silverman(m.focus) ELSE m.h[1], m.c)
                []   OTHER          -> Resolve(m.v, n)
MapOk(t, n) == t.k = "none" \/ (t.k = "linear" /\ (t.B = <<>> \/ IsMat(t.B, n, n)) /\ (t.c = <<>> \/ IsVec(t.c, n)))
Mapped(t, Rm) == IF t.k = "none" THEN Rm ELSE Stressed(Rm, t.B, t.s, t.c)

ConfOk(c) == RNum(c) /\ RLt(0, c) /\ RLt(c, 1)
Fit(ev) == /\ Matchable(ev.wl, ev.cols, ev.rows, Len(ev.R[1])) /\ ConfOk(ev.conf) /\ ~ev.junk
           /\ GivenOk(ev.p, Len(ev.R)) /\ RecipeOk(ev.q, Len(ev.R)) /\ MapOk(ev.map, Len(ev.R[1]))
Has(ev) == ev.q.k # "none" \/ ev.map.k # "none"

LabelOk(lab, conf) == RNear(lab, RMul(100, conf), R(51, 100))
SameFig(f, g, sc) == /\ RNear(f.ret, g.ret, RMul(Tol10, sc)) /\ RNear(RSq(f.sd), RSq(g.sd), RMul(Tol10, RSq(sc)))
                     /\ RNear(f.var, g.var, RMul(Tol10, sc)) /\ RNear(f.cvar, g.cvar, RMul(Tol8, sc)) /\ RNear(f.ens, g.ens, RMul(Tol8, f.ens))

RowClauses(ev, j, p, q, S, a) ==
  LET w  == Aligned(ev.W[j], ev.wl, ev.cols)
      o  == ev.out.rows[j]
      X  == Pnl(ev.R, w)     XX == Pnl(TailRows(ev.R, p, ev.demean), w)
      sc == Scale(ev.R, w)
  IN  Figures("nominal", o.nom, X, XX, p, a, sc)
      \cup (IF ~Has(ev) THEN {} ELSE
            LET Y == Pnl(S, w) YY == Pnl(TailRows(S, q, ev.demean), w) IN
            Figures("stressed", o.str, Y, YY, q, a, Scale(S, w))
            \cup (IF ev.free THEN {<<"unchanged-shows-no-change", SameFig(o.nom, o.str, sc)>>} ELSE {}))

JudgeTable(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~Fit(ev) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET m == Len(ev.W) n == Len(ev.R) a == RSub(1, ev.conf)
           p == TLCEval(Masses(ev.p, n))
           q == TLCEval(IF ev.q.k = "none" THEN p ELSE Masses(ev.q, n))
           S == TLCEval(Mapped(ev.map, ev.R))
       IN
  IF Len(ev.out.rows) # m THEN {<<"one-row-per-portfolio", FALSE>>}
  ELSE {<<"one-row-per-portfolio", TRUE>>,
        <<"rows-carry-the-portfolio-names", ev.names = <<>> \/ ev.out.index = ev.names>>,
        <<"confidence-named", LabelOk(ev.out.lab, ev.conf)>>,
        <<"stressed-columns-iff-stressed", ev.out.stressed = Has(ev)>>}
       \cup (IF ev.out.stressed # Has(ev) THEN {} ELSE
             UNION {RowClauses(ev, j, p, q, S, a) : j \in 1..m})
       \cup (IF ev.q.k = "none" \/ \E i \in 1..n : RZero(p[i]) /\ RGt(q[i], 0) THEN {}
             ELSE {<<"relative-entropy", \A j \in 1..m : RNear(ev.out.rows[j].kl, KL(q, p), RMul(Tol8, RMax(1, KL(q, p))))>>})
       \cup (IF s.seen = <<>> \/ s.key # ev.key THEN {}
             ELSE {<<"same-nominal-figures", \A j \in 1..m : SameFig(ev.out.rows[j].nom, s.seen[j], Scale(ev.R, ev.W[j]))>>})

\* ---- stress at the level of the risk drivers: both simulated sets were recorded ----
RECURSIVE SumsOf(_, _)
SumsOf(Rm, h) == IF h = 1 THEN {Rm[t] : t \in 1..Len(Rm)}
                 ELSE TLCEval({VAdd(x, Rm[t]) : x \in SumsOf(Rm, h - 1), t \in 1..Len(Rm)})
Reach(sets, row) == \E x \in sets : VEq(x, row)
JudgeInv(ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~Matchable(ev.wl, ev.cols, ev.rows, Len(ev.R[1])) THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET m == Len(ev.W) a == RSub(1, ev.conf) u == Uniform(Len(ev.R)) IN
  IF Len(ev.out.rows) # m THEN {<<"one-row-per-portfolio", FALSE>>}
  ELSE {<<"one-row-per-portfolio", TRUE>>, <<"stressed-columns-iff-stressed", ev.out.stressed = ev.stressed>>,
        <<"confidence-named", LabelOk(ev.out.lab, ev.conf)>>, <<"same-seed-same-answer", ev.again>>,
        <<"simulated-as-many-as-asked", Len(ev.R) = ev.n /\ (ev.stressed => Len(ev.S) = ev.n)>>}
       \cup (IF ev.out.stressed # ev.stressed THEN {} ELSE UNION
        {LET w == Aligned(ev.W[j], ev.wl, ev.cols) o == ev.out.rows[j] X == Pnl(ev.R, w) IN
         Figures("invariant-nominal", o.nom, X, Pnl(TailRows(ev.R, u, ev.demean), w), u, a, Scale(ev.R, w))
         \cup (IF ~ev.stressed THEN {} ELSE
               LET v == Uniform(Len(ev.S)) Y == Pnl(ev.S, w) IN
               Figures("invariant-stressed", o.str, Y, Pnl(TailRows(ev.S, v, ev.demean), w), v, a, Scale(ev.S, w)))
         : j \in 1..m})
       \cup (IF ev.inv = <<>> THEN {} ELSE
             LET K == TLCEval(SumsOf(ev.inv, ev.h)) IN
             {<<"driver-moves-are-sums-of-history", \A i \in 1..Len(ev.nomdraw) : Reach(K, ev.nomdraw[i])>>,
              <<"stressed-moves-are-sums-of-history", \A i \in 1..Len(ev.strdraw) : Reach(K, ev.strdraw[i])>>})

\* average of many simulated moves of one driver: history on the nominal side, the view on the stressed side
JudgeViews(ev) ==
  IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET slack == RMul(RMul(R(3, 1), ev.range), RDiv(RSqrt(ev.h), RSqrt(ev.n))) IN
  {<<"nominal-moves-follow-history", RNear(ev.nommean, RMul(ev.h, RDiv(RSum(ev.hist), Len(ev.hist))), slack)>>,
   <<"stressed-moves-follow-the-view",
     CASE ev.rel = "eq" -> RNear(ev.strmean, RMul(ev.h, ev.view), slack)
     []   ev.rel = "ge" -> RLeT(RMul(ev.h, ev.view), ev.strmean, slack)
     []   OTHER         -> RLeT(ev.strmean, RMul(ev.h, ev.view), slack)>>}

\* ---- the linear transformation itself ----
JudgeMap(ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.junk THEN {<<"misfits-rejected", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET S == Stressed(ev.R, ev.map.B, ev.map.s, ev.map.c) IN
       {<<"linear-map", IsMat(ev.out.M, Len(S), Len(S[1])) /\ \A t \in 1..Len(S) : VNear(ev.out.M[t], S[t], RMul(Tol12, ev.sc))>>}

TStart(init) == [key |-> "", seen |-> <<>>]
TJudge(s, ev) == CASE ev.op = "table" -> JudgeTable(s, ev)
                 []   ev.op = "inv"   -> JudgeInv(ev)
                 []   ev.op = "views" -> JudgeViews(ev)
                 []   OTHER           -> JudgeMap(ev)
TAdvance(s, ev) == IF ev.op = "table" /\ ev.out.k = "ok" /\ Fit(ev)
                   THEN [key |-> ev.key, seen |-> TLCEval([j \in 1..Len(ev.out.rows) |-> ev.out.rows[j].nom])] ELSE s
=============================================================================
