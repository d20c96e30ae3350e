----------------------------- MODULE AllocTrace -----------------------------
(***************************************************************************)
(* Conformance of the discrete allocators.  A session shares one set of    *)
(* user objects; every `allocate` event carries the raw inputs and what    *)
(* the library returned.  The state remembers earlier answers: asking the  *)
(* same question again must give the same answer.                          *)
(***************************************************************************)
EXTENDS TraceBase, Alloc

Names(pairs)      == {pairs[i][1] : i \in 1..Len(pairs)}
Lookup(pairs, nm) == pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = nm][2]

ZeroTol == R(1, 100000000)
Kept(ev) == SelectSeq(ev.w, LAMBDA p : RGt(RAbs(p[2]), ZeroTol))

RawProblem(ev) ==
  LET k == Kept(ev) IN
  [names |-> [i \in 1..Len(k) |-> k[i][1]],
   w     |-> [i \in 1..Len(k) |-> k[i][2]],
   price |-> [i \in 1..Len(k) |-> Lookup(ev.prices, k[i][1])],
   lot   |-> [i \in 1..Len(k) |-> IF k[i][1] \in Names(ev.lots) THEN Lookup(ev.lots, k[i][1]) ELSE 1],
   V     |-> ev.V,
   cap   |-> ev.cap]

Problem(ev) == Enrich(RawProblem(ev))

Methods == {"greedy", "rounddown", "milp", "mip", "integer", "lp"}
GreedyMethods == {"greedy", "rounddown"}

MustReject(ev) ==
  \/ ev.method \notin Methods
  \/ ev.method \in GreedyMethods /\ ev.mode \notin {"auto", "milp", "none"}
  \/ Names(ev.w) \ Names(ev.prices) # {}
  \/ Len(Kept(ev)) = 0
  \/ ~WellPosed(RawProblem(ev))

IsErr(ev, cls) == ev.out.k = "err" /\ \E i \in 1..Len(ev.out.mro) : ev.out.mro[i] \in cls

ShareOf(pb, ev, i) == IF pb.names[i] \in Names(ev.out.shares) THEN Lookup(ev.out.shares, pb.names[i]) ELSE 0
LotsOf(pb, ev) == TLCEval([i \in Idx(pb) |-> RDiv(ShareOf(pb, ev, i), pb.lot[i])])

Eps(pb) == RMul(R(1, 100000000), RMax(1, pb.V))       \* money tolerance

\* well-formed result: otherwise nothing else can be judged
Shape(pb, ev) ==
  /\ Names(ev.out.shares) \subseteq {pb.names[i] : i \in Idx(pb)}
  /\ Len(ev.out.shares) = Cardinality(Names(ev.out.shares))
  /\ \A i \in 1..Len(ev.out.shares) : RIsInt(ev.out.shares[i][2]) /\ ~RZero(ev.out.shares[i][2])
  /\ RNum(ev.out.leftover) /\ RNum(ev.out.te)
  /\ ev.out.alab = pb.names /\ IsVec(ev.out.aval, N(pb))

Accounting(pb, ev) ==
  LET lots == LotsOf(pb, ev)
      val  == TLCEval([i \in Idx(pb) |-> RMul(LotCost(pb)[i], lots[i])])
      ach  == TLCEval([i \in Idx(pb) |-> RDiv(val[i], pb.V)])
  IN {<<"whole-lots", \A i \in Idx(pb) : RIsInt(lots[i])>>,
      <<"cash-nonnegative", RLe(0, ev.out.leftover)>>,
      <<"conservation", RNear(RAdd(RSum(val), ev.out.leftover), pb.V, Eps(pb))>>,
      <<"achieved-weights", VNear(ach, ev.out.aval, TolTight)>>,
      <<"tracking-error", RNear(VAbsSum(VSub(Norm(pb), ach)), ev.out.te, Tol8)>>,
      <<"never-short-a-long", \A i \in Idx(pb) : RGt(pb.w[i], 0) => RLe(0, lots[i])>>}

\* facts that hold of every greedy outcome, judged with a money tolerance
GreedyFacts(pb, ev) ==
  LET lots == LotsOf(pb, ev) e == Eps(pb) cash == Cash(pb, lots) IN
  {<<"at-least-rounded-down", \A i \in Idx(pb) :
        RGe(RAdd(RMul(RAdd(lots[i], 1), LotCost(pb)[i]), e), Target(pb)[i])>>,
   <<"overshoot-below-one-lot", \A i \in Idx(pb) :
        RLt(RMul(RSub(lots[i], 1), LotCost(pb)[i]), RAdd(Target(pb)[i], e))>>}
NothingLeft(pb, ev) ==
  LET lots == LotsOf(pb, ev) e == Eps(pb) cash == Cash(pb, lots) IN
  <<"nothing-affordable-left", \A i \in Idx(pb) :
        \/ RGe(RAdd(RMul(lots[i], LotCost(pb)[i]), e), Target(pb)[i])
        \/ RGt(RAdd(LotCost(pb)[i], e), cash)>>

Small(pb) == (\A i \in Idx(pb) : Bound(pb, i) >= 0 /\ Bound(pb, i) <= 40) /\ BoxSize(pb) <= 3000
Optimal(pb, ev, pen, cashCap) ==
  LET best == BestObjective(pb, pen, cashCap)
      mine == Objective(pb, LotsOf(pb, ev), pen)
  IN best # "none" /\ RLe(mine, RAdd(RMul(best, R(10002, 10000)), RMul(R(1, 1000000), pb.V)))

\* does the exact allocator have any admissible answer?
MilpFeasible(pb, cashCap) == cashCap = "none" \/ BestObjective(pb, 1, cashCap) # "none"

\* The external MILP solver may give up; the library must then raise, never guess.
SolverGaveUp(ev) == ev.out.k = "solver"

JudgeMilp(pb, ev) ==
  IF SolverGaveUp(ev) THEN {<<"solver-failure-raises", IsErr([ev EXCEPT !.out.k = "err"], {"RuntimeError"})>>}
  ELSE IF ~Small(pb) THEN {<<"accepted", ev.out.k = "ok">>}
  ELSE IF ~MilpFeasible(pb, ev.cashcap) THEN {<<"infeasible-raises", ev.out.k = "err">>}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE IF ~Shape(pb, ev) THEN {<<"shape", FALSE>>}
  ELSE Accounting(pb, ev)
       \cup {<<"milp-optimal", Optimal(pb, ev, ev.pen, ev.cashcap)>>}
       \cup (IF ev.cashcap = "none" THEN {}
             ELSE {<<"cash-cap", RLe(Cash(pb, LotsOf(pb, ev)), RAdd(ev.cashcap, Eps(pb)))>>})

JudgeGreedy(pb, ev) ==
  IF HasShort(pb) THEN JudgeMilp(pb, ev)
  ELSE IF SolverGaveUp(ev) /\ ev.mode = "milp" /\ ev.milpdead THEN {}
  ELSE IF ev.out.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE IF ~Shape(pb, ev) THEN {<<"shape", FALSE>>}
  ELSE LET halts == IF ev.exact THEN GreedyHalts(pb) ELSE {}
           lots  == LotsOf(pb, ev)
           isHalt == \E h \in halts : VEq(h.lots, lots)
           uncapped == ev.cap >= 100
       IN Accounting(pb, ev)
          \cup (IF uncapped THEN GreedyFacts(pb, ev) \cup {NothingLeft(pb, ev)} ELSE {})
          \cup (IF ~ev.exact THEN {}
                ELSE IF \A h \in halts : ~CapHit(pb, h) THEN {<<"greedy-machine", isHalt>>}
                ELSE IF ev.mode = "none" THEN {<<"greedy-capped-none", isHalt>>}
                ELSE IF ~Small(pb) \/ ev.milpdead THEN {}
                ELSE IF \E h \in halts : h.phase = "exhausted" /\ RGt(MaxDeficit(pb, [h EXCEPT !.phase = "topup"]), 0)
                          /\ \E i \in Idx(pb) : RGt(Deficit(pb, h, i), 0) /\ RLe(LotCost(pb)[i], h.cash)
                     THEN {<<"greedy-fallback-milp", Optimal(pb, ev, ev.pen, ev.cashcap)>>}
                ELSE {<<"greedy-capped", isHalt \/ Optimal(pb, ev, ev.pen, ev.cashcap)>>})

JudgeAllocate(s, ev) ==
  {<<"inputs-unchanged", ev.same>>}
  \cup (IF MustReject(ev)
        THEN {<<"rejects-bad-input", IsErr(ev, {"ValueError", "TypeError"})>>}
        ELSE IF ev.method \in GreedyMethods THEN JudgeGreedy(Problem(ev), ev)
        ELSE JudgeMilp(Problem(ev), ev))
  \cup (IF \E i \in 1..Len(s.seen) : s.seen[i][1] = ev.key
        THEN {<<"same-question-same-answer",
                \A i \in 1..Len(s.seen) : s.seen[i][1] = ev.key => s.seen[i][2] = ev.out>>}
        ELSE {})

TStart(init) == [seen |-> <<>>]
TJudge(s, ev) == JudgeAllocate(s, ev)
TAdvance(s, ev) == [seen |-> Append(s.seen, <<ev.key, ev.out>>)]
=============================================================================
