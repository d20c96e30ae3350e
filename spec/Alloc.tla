------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Discrete allocation: turning target weights into whole lots of shares.  *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   [names, w, price, lot, V, cap]  (cap = greedy purchase limit) *)
(* over the assets with a non-zero target weight.  The greedy allocator is *)
(* a state machine                                                         *)
(*   [lots, cash, blocked, it, phase]      phase: "topup" -> "done"        *)
(* that starts from the rounded-down position and then keeps buying the    *)
(* most underweight asset it can still afford.                             *)
(***************************************************************************)
EXTENDS Lin, TLC

N(pb)        == Len(pb.w)
Idx(pb)      == 1..N(pb)
WSum(pb)     == RSum(pb.w)
Norm(pb)     == TLCEval([i \in Idx(pb) |-> RDiv(pb.w[i], WSum(pb))])
\* derived once per problem: normalised weights, cost of one lot, cash target
Enrich(pb)   == LET nw == Norm(pb) IN
                TLCEval(pb @@ [nw |-> nw,
                       c  |-> [i \in Idx(pb) |-> RMul(pb.price[i], pb.lot[i])],
                       t  |-> [i \in Idx(pb) |-> RMul(nw[i], pb.V)]])
LotCost(pb)  == pb.c
Target(pb)   == pb.t
FloorLots(pb) == TLCEval([i \in Idx(pb) |-> IF RLt(pb.t[i], 0) THEN 0 ELSE RFloor(RDiv(pb.t[i], pb.c[i]))])
MinCost(pb)  == VMin(LotCost(pb))
Spent(pb, lots) == RDot(LotCost(pb), lots)
HasShort(pb) == \E i \in Idx(pb) : RLt(pb.w[i], 0)

WellPosed(pb) ==
  /\ N(pb) > 0 /\ RGt(WSum(pb), 0) /\ RGt(pb.V, 0)
  /\ \A i \in Idx(pb) : RGt(pb.price[i], 0) /\ RGt(pb.lot[i], 0)

----------------------------------------------------------------------------
(* The greedy machine.                                                     *)
GInit(pb) == LET f == FloorLots(pb)
             IN [lots |-> f, cash |-> RSub(pb.V, Spent(pb, f)), blocked |-> {}, it |-> 0, phase |-> "topup"]

Deficit(pb, s, i) == IF i \in s.blocked THEN 0
                     ELSE RMax(0, RSub(Target(pb)[i], RMul(LotCost(pb)[i], s.lots[i])))
MaxDeficit(pb, s) == VMax([i \in Idx(pb) |-> Deficit(pb, s, i)])

Exhausted(pb, s)  == s.it >= pb.cap
CanContinue(pb, s) == s.phase = "topup" /\ RLe(MinCost(pb), s.cash) /\ ~Exhausted(pb, s)
                      /\ RGt(MaxDeficit(pb, s), 0)

MostUnder(pb, s, i) == REq(Deficit(pb, s, i), MaxDeficit(pb, s))

\* the most underweight asset cannot be afforded: stop considering it
Block(pb, s, i) == [s EXCEPT !.blocked = @ \cup {i}]
BlockEnabled(pb, s, i) == CanContinue(pb, s) /\ MostUnder(pb, s, i) /\ RGt(LotCost(pb)[i], s.cash)

\* buy the whole lots it is short of, at least one, at most what cash allows
BuyLots(pb, s, i) == RMin(RFloor(RDiv(s.cash, LotCost(pb)[i])),
                          RMax(1, RFloor(RDiv(Deficit(pb, s, i), LotCost(pb)[i]))))
BuyEnabled(pb, s, i) == CanContinue(pb, s) /\ MostUnder(pb, s, i) /\ RLe(LotCost(pb)[i], s.cash)
Buy(pb, s, i) == [s EXCEPT !.lots[i] = RAdd(@, BuyLots(pb, s, i)),
                           !.cash = RSub(@, RMul(BuyLots(pb, s, i), LotCost(pb)[i])),
                           !.it = @ + 1]

StopEnabled(pb, s) == s.phase = "topup" /\ ~CanContinue(pb, s)
Stop(pb, s) == [s EXCEPT !.phase = IF Exhausted(pb, s) /\ RLe(MinCost(pb), s.cash) THEN "exhausted" ELSE "done"]
\* when the purchase cap stops the machine exactly at completion the code still
\* counts it as exhausted: both readings are recorded in `capHit`
CapHit(pb, s) == Exhausted(pb, s)

RECURSIVE GRun(_, _)
GRun(pb, s) ==   \* set of states in which the machine can halt from s
  IF s.phase # "topup" THEN {s}
  ELSE IF StopEnabled(pb, s) THEN {Stop(pb, s)}
  ELSE UNION { IF BuyEnabled(pb, s, i) THEN GRun(pb, TLCEval(Buy(pb, s, i)))
               ELSE IF BlockEnabled(pb, s, i) THEN GRun(pb, TLCEval(Block(pb, s, i))) ELSE {} : i \in Idx(pb) }
GreedyHalts(pb) == GRun(pb, GInit(pb))

RECURSIVE MinOf(_)
MinOf(S) == LET x == CHOOSE y \in S : TRUE IN IF Cardinality(S) = 1 THEN x ELSE RMin(x, MinOf(S \ {x}))

----------------------------------------------------------------------------
(* The exact allocator: least L1 tracking error plus penalised cash.       *)
Cash(pb, lots) == RSub(pb.V, Spent(pb, lots))
Objective(pb, lots, pen) ==
  RAdd(RSum([i \in Idx(pb) |-> RAbs(RSub(RMul(LotCost(pb)[i], lots[i]), Target(pb)[i]))]),
       RMul(pen, Cash(pb, lots)))
Gross(pb) == RSum([i \in Idx(pb) |-> RAbs(Target(pb)[i])])
Bound(pb, i) == RToInt(RAdd(RFloor(RDiv(Gross(pb), LotCost(pb)[i])), 1))
LotRange(pb, i) == IF RLt(pb.w[i], 0) THEN (0 - Bound(pb, i))..Bound(pb, i) ELSE 0..Bound(pb, i)

BoxSize(pb) == (LET RECURSIVE prod(_)
                                          prod(i) == IF i = 0 THEN 1     \* saturates: only small boxes are enumerated
                                                     ELSE LET q == prod(i - 1) IN IF q > 10000 THEN q ELSE Cardinality(LotRange(pb, i)) * q
                                     IN prod(N(pb)))
\* least objective over all affordable lot vectors: "none" when there is none
LMin(a, b) == IF a = "none" THEN b ELSE IF b = "none" THEN a ELSE RMin(a, b)
RECURSIVE BestFrom(_, _, _, _, _, _)
RECURSIVE BestOver(_, _, _, _, _, _, _)
\* asset k, cash left, error so far
BestFrom(pb, pen, cashCap, k, cash, err) ==
  IF k > N(pb)
  THEN IF RLe(0, cash) /\ (cashCap = "none" \/ RLe(cash, cashCap)) THEN RAdd(err, RMul(pen, cash)) ELSE "none"
  ELSE BestOver(pb, pen, cashCap, k, cash, err, LotRange(pb, k))
BestOver(pb, pen, cashCap, k, cash, err, S) ==
  LET vals == {BestFrom(pb, pen, cashCap, k + 1, RSub(cash, RMul(x, pb.c[k])),
                        RAdd(err, RAbs(RSub(RMul(x, pb.c[k]), pb.t[k])))) : x \in S} \ {"none"}
  IN IF vals = {} THEN "none" ELSE MinOf(vals)
BestObjective(pb, pen, cashCap) == BestFrom(pb, pen, cashCap, 1, pb.V, 0)
=============================================================================
