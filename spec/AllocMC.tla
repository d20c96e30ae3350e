------------------------------ MODULE AllocMC ------------------------------
(* Exhaustive exploration of the greedy machine over small problems; each  *)
(* explored problem is emitted and replayed against the implementation.    *)
EXTENDS Alloc, CSV, IOUtils, Json

CONSTANTS Prices, Lots, Values, Caps, MaxN

Weights(n) == {w \in [1..n -> 1..8] : RToInt(RSum(w)) = 8}
Raw == UNION { {[w |-> [i \in 1..n |-> R(w[i], 8)], price |-> p, lot |-> l, V |-> v, cap |-> c] :
                       w \in Weights(n), p \in [1..n -> Prices], l \in [1..n -> Lots], v \in Values, c \in Caps}
                    : n \in 1..MaxN }

Problems == {Enrich(r) : r \in Raw}

VARIABLES pb, s
vars == <<pb, s>>

Init == pb \in Problems /\ s = GInit(pb)
DoBuy   == \E i \in Idx(pb) : BuyEnabled(pb, s, i) /\ s' = Buy(pb, s, i) /\ UNCHANGED pb
DoBlock == \E i \in Idx(pb) : BlockEnabled(pb, s, i) /\ s' = Block(pb, s, i) /\ UNCHANGED pb
DoStop  == /\ StopEnabled(pb, s) /\ s' = Stop(pb, s) /\ UNCHANGED pb
           /\ CSVWrite("%1$s", <<ToJson([w |-> pb.w, price |-> pb.price, lot |-> pb.lot, V |-> pb.V, cap |-> pb.cap])>>, IOEnv.VEMIT)
Next == DoBuy \/ DoBlock \/ DoStop

\* properties of the machine, in every reachable state
CashNonNegative == RLe(0, s.cash)
Conservation    == REq(RAdd(s.cash, Spent(pb, s.lots)), pb.V)
AtLeastFloor    == \A i \in Idx(pb) : RGe(s.lots[i], FloorLots(pb)[i])
\* no position overshoots its target by a full lot
OvershootBelowOneLot == \A i \in Idx(pb) :
    RLt(RMul(RSub(s.lots[i], 1), LotCost(pb)[i]), Target(pb)[i]) \/ REq(s.lots[i], FloorLots(pb)[i])
\* in the end nothing that is still underweight could be bought
NothingLeftToBuy == s.phase = "done" =>
    \A i \in Idx(pb) : RGe(RMul(s.lots[i], LotCost(pb)[i]), Target(pb)[i]) \/ RGt(LotCost(pb)[i], s.cash)
Blocked == \A i \in s.blocked : RGt(LotCost(pb)[i], s.cash)
Finite  == s.it <= N(pb)      \* each purchase removes the deficit or the cash
=============================================================================
