----------------------------- MODULE OptimTrace -----------------------------
(* Conformance of the optimisers.  Every event carries the problem that was *)
(* in force, what the library answered, and witnesses (multipliers, tangent *)
(* points, interior points) that are verified here; a wrong witness proves  *)
(* nothing, a right one settles optimality, feasibility or infeasibility.   *)
(*                                                                          *)
(*  solve    one portfolio      frontier   a sequence of portfolios          *)
(*  refuse   a malformed request                                            *)
EXTENDS TraceBase, Optim

TolF == R(1, 500000)          \* feasibility
TolV == R(3, 1000000)         \* objective
TolR == Tol8                  \* closed-form reports
Clear == R(1, 50000)          \* rows missed by more than this are infeasible
Room  == R(1, 500)            \* comfortable feasibility

VTol(x, k) == RMul(k, RMul(TolV, RAdd(R(1, 10), RAbs(x))))
Errs == {"ValueError", "TypeError", "RuntimeError", "ArithmeticError", "LookupError"}
Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in Errs

Optimal(P, hs, hp, w, wit, k) ==
  LET v == Value(P.obj, w) lb == LowerBound(P, hs, hp, wit) IN
  IF ~RNum(lb) THEN FALSE ELSE RLeT(v, lb, VTol(v, k))
CapOk(P, w) == \A k \in 1..Len(P.cap) : RLeT(Norm(w, P.cap[k].S), P.cap[k].c, TolF)

\* lattice of trial portfolios for small long-only universes
Trials(P) == IF P.d.n > 3 \/ ~P.d.long \/ ~Given(P.d.total) \/ ~RIsInt(RMul(P.d.total, 8)) THEN {}
             ELSE LET t == RToInt(RMul(P.d.total, 8)) IN IF t < 0 \/ t > 16 THEN {} ELSE Lattice(P.d.n, 8, 0, t, t)
NoneBetter(P, hs, hp, w, k) == LET tol == VTol(Value(P.obj, w), k) IN \A v \in Trials(P) : ~Beats(P, hs, hp, v, w, tol)

\* what the report says a number is
Reported(r, w, x) ==
  CASE r.kind = "none"    -> TRUE
    [] r.kind = "lin"     -> RClose(x, RDot(r.a, w), TolR)
    [] r.kind = "vol"     -> RLe(0, x) /\ RNear(RSq(x), RMax(0, Quad(w, r.M)), RMul(TolR, RAdd(1, RSq(VAbsSum(w)))))
    [] r.kind = "radius"  -> RLe(0, x) /\ RNear(x, Norm(w, r.M), TolF)
    [] r.kind = "radius2" -> RLe(0, x) /\ RNear(x, RMax(0, Quad(w, r.M)), TolF)
    [] r.kind = "cvar"    -> RClose(x, CVaR(Pnl(r.R, w), r.p, r.al), TolR)
    [] r.kind = "contrib" -> VClose(x, Contrib(w, r.M), TolF)
    [] r.kind = "marg"    -> VClose(x, MV(r.M, w), TolF)
    [] r.kind = "share"   -> LET q == Quad(w, r.M) IN VNear(x, VScale(RDiv(100, q), Contrib(w, r.M)), Tol4)
    [] r.kind = "gapval"  -> RNear(x, ParityGap(w, r.M, r.lam, r.b), Tol5)
    [] r.kind = "nearcvar" -> RNear(x, CVaR(Pnl(r.R, w), r.p, r.al), Tol5)
    [] r.kind = "equals"  -> IF r.none THEN x = "none" ELSE x # "none" /\ RNear(x, r.y, Tol8)
    [] r.kind = "flag"    -> x = r.y
    [] OTHER -> FALSE
Reports(rs, w) == { <<"reported-" \o rs[k].name, Reported(rs[k], w, rs[k].x)>> : k \in 1..Len(rs) }

\* ---- one portfolio ----------------------------------------------------------
Met(P, hs, hp, z) == /\ IsVec(z, P.d.n) /\ RGe(RoomOf(hs, z), Room) /\ RLe(EqOff(hp, z), Tol10)
                     /\ \A k \in 1..Len(P.cap) : RLe(RAdd(Norm(z, P.cap[k].S), Room), P.cap[k].c)
JudgeAnswer(ev, hs, hp) ==
  LET P == ev.P o == ev.out IN
  IF o.k # "ok" THEN
     {<<"fails-with-an-error", Refused(o)>>}
     \cup (IF ev.room = <<>> THEN {} ELSE {<<"answers-feasible-requests", ~(ev.bounded /\ Met(P, hs, hp, ev.room))>>})
  ELSE IF ~IsVec(o.w, P.d.n) THEN {<<"finite-weights", FALSE>>}
  ELSE {<<"finite-weights", TRUE>>,
        <<"obeys-constraints", RLe(Excess(hs, hp, o.w), RMul(TolF, RMax(1, VAbsSum(o.w)))) /\ CapOk(P, o.w)>>,
        <<"labels", o.labels = ev.labels>>}
       \cup (IF ev.fark = <<>> THEN {}
             ELSE {<<"impossible-requests-fail", LET m == Farkas(P, hs, hp, ev.fark[1]) IN
                                                 RLe(VAbsSum(o.w), P.rad) => ~(RNum(m) /\ RGt(m, Clear))>>})
       \cup (IF ev.wit = <<>> THEN {} ELSE {<<"optimal", Optimal(P, hs, hp, o.w, ev.wit[1], ev.loose)>>})
       \cup (IF Trials(P) = {} THEN {} ELSE {<<"no-trial-portfolio-better", NoneBetter(P, hs, hp, o.w, ev.loose)>>})
       \cup Reports(o.reports, o.w)
       \cup (IF ev.sharpe = <<>> THEN {}
             ELSE LET s == ev.sharpe[1] IN
                  {<<"own-sharpe-ratio", RNear(RMul(s.k, Norm(o.w, s.S)), RSub(RDot(s.mu, o.w), s.rf), RMul(Tol8, RAdd(1, VAbsSum(o.w))))>>})
       \cup (IF ev.equal = <<>> THEN {}
             ELSE LET e == ev.equal[1] c == Contrib(o.w, e.S) q == RSum(c) IN
                  {<<"equal-risk-contributions", \A i \in 1..Len(c) : RNear(RDiv(c[i], q), e.b[i], R(1, 5000))>>})
       \cup (IF ev.goal = <<>> THEN {}
             ELSE LET g   == ev.goal[1]       \* effective target: the request, clipped only as stated
                      top == RSub(g.max, RMax(Tol8, RMul(R(1, 1000), RAbs(g.max))))
                      exp == RMax(RMin(g.asked, top), g.base)
                  IN {<<"target-as-requested", g.room # <<>> /\ Met(P, Append(hs, Target(g.mu, exp)), hp, g.room)
                                                => (g.used # "none" /\ RNear(g.used, exp, Tol5))>>,
                      <<"target-reached", g.used # "none" => RLeT(g.used, RDot(g.mu, o.w), TolF)>>})
JudgeSolve(ev) ==
  {<<"inputs-unchanged", ev.same>>}
  \cup JudgeAnswer(ev, Halfspaces(ev.P.d) \o ev.extra, Hyperplanes(ev.P.d))

\* ---- a frontier --------------------------------------------------------------
\* cols: [w, ret, risk, obj, wit]; obj is the objective of that column
ColClauses(ev, hs, hp, c) ==
  LET P  == [ev.P EXCEPT !.obj = c.obj]
      tg == Target(ev.mu, RDot(ev.mu, c.w))
      rows == IF ev.own THEN Append(hs, tg) ELSE hs
  IN  {<<"obeys-constraints", RLe(Excess(hs, hp, c.w), TolF)>>}
      \cup (IF c.wit = <<>> THEN {} ELSE {<<"column-optimal", Optimal(P, rows, hp, c.w, c.wit[1], 6)>>})
      \cup (IF Trials(P) = {} THEN {} ELSE {<<"no-trial-portfolio-better", NoneBetter(P, rows, hp, c.w, 6)>>})
      \cup Reports(c.reports, c.w)
\* nothing more to earn than the minimum-risk portfolio does
Flat(ev, hs, hp, w) == ev.wmax # <<>> /\
  LET lb == LowerBound([ev.P EXCEPT !.obj = <<[t |-> "lin", a |-> VScale(-1, ev.mu)]>>], hs, hp, ev.wmax[1]) IN
  RNum(lb) /\ RLe(RSub(RNeg(lb), RDot(ev.mu, w)), RMul(R(1, 20000), RMax(R(1, 100), RAbs(lb))))
JudgeFrontier(ev) ==
  LET o == ev.out P == ev.P hs == Halfspaces(P.d) hp == Hyperplanes(P.d) IN
  {<<"inputs-unchanged", ev.same>>} \cup
  (IF o.k # "ok" THEN
     {<<"fails-with-an-error", Refused(o)>>}
     \cup (IF ev.room = <<>> THEN {} ELSE {<<"answers-feasible-requests", ~(ev.bounded /\ Met(P, hs, hp, ev.room))>>})
   ELSE LET cs == o.cols IN
     IF \E k \in 1..Len(cs) : ~IsVec(cs[k].w, P.d.n) THEN {<<"finite-weights", FALSE>>}
     ELSE {<<"finite-weights", TRUE>>, <<"labels", o.labels = ev.labels>>,
           <<"frontier-size", \/ Len(cs) = ev.num
                              \/ ev.own /\ Len(cs) = 1 /\ (ev.num < 2 \/ Flat(ev, hs, hp, cs[1].w))>>}
       \cup (IF ev.fark = <<>> THEN {}
             ELSE {<<"impossible-requests-fail", LET m == Farkas(P, hs, hp, ev.fark[1]) IN
                                                 (\A k \in 1..Len(cs) : RLe(VAbsSum(cs[k].w), P.rad)) => ~(RNum(m) /\ RGt(m, Clear))>>})
       \cup UNION { ColClauses(ev, hs, hp, cs[k]) : k \in 1..Len(cs) }
       \cup (IF ~ev.own THEN {}
             ELSE {<<"returns-increase", \A k \in 1..(Len(cs) - 1) : RLeT(RDot(ev.mu, cs[k].w), RDot(ev.mu, cs[k + 1].w), TolF)>>}
                  \cup (IF ev.wmin = <<>> THEN {} ELSE {<<"starts-at-minimum-risk", Optimal(P, hs, hp, cs[1].w, ev.wmin[1], 6)>>})
                  \cup (IF ev.wmax = <<>> \/ Len(cs) = 1 THEN {}
                        ELSE {<<"ends-at-maximum-return",
                               Optimal([P EXCEPT !.obj = <<[t |-> "lin", a |-> VScale(-1, ev.mu)]>>], hs, hp, cs[Len(cs)].w, ev.wmax[1], 6)>>}))
       \cup (IF ~ev.ordered THEN {} ELSE {<<"ordered-by-risk", \A k \in 1..(Len(cs) - 1) : RLe(cs[k].risk, cs[k + 1].risk)>>})
       \cup (IF ev.lambdas = <<>> THEN {}
             ELSE {<<"every-penalty-once", /\ Len(cs) = Len(ev.lambdas)
                      /\ \A k \in 1..Len(ev.lambdas) :
                           Cardinality({j \in 1..Len(cs) : REq(o.meta[j], ev.lambdas[k])})
                             = Cardinality({j \in 1..Len(cs) : REq(ev.lambdas[j], ev.lambdas[k])})>>}))

TStart(init) == <<>>
TJudge(s, ev) == CASE ev.op = "solve"    -> JudgeSolve(ev)
                   [] ev.op = "frontier" -> JudgeFrontier(ev)
                   [] ev.op = "refuse"   -> {<<"malformed-requests-fail", Refused(ev.out)>>, <<"inputs-unchanged", ev.same>>}
TAdvance(s, ev) == s
=============================================================================
