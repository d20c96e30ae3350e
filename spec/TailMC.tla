------------------------------- MODULE TailMC -------------------------------
(* The tail sweep over every small discrete distribution.                  *)
EXTENDS TailRisk, CSV, IOUtils, Json

CONSTANTS T, Outcomes, Den, Tails     \* scenarios, profit levels, mass 1/Den, tail masses k/(2 Den)

VARIABLES X, p, a, taken, left, acc, last
vars == <<X, p, a, taken, left, acc, last>>
dist == <<X, p, a>>

Masses == {m \in [1..T -> 0..Den] : RToInt(RSum(m)) = Den}
Init == /\ X \in [1..T -> {R(o - 1, 1) : o \in Outcomes}]
        /\ \E m \in Masses : p = TLCEval([i \in 1..T |-> R(m[i], Den)])
        /\ \E k \in Tails : a = R(k, 2 * Den)
        /\ taken = {} /\ left = a /\ acc = R(0, 1) /\ last = "none"
Worst == {i \in ((1..T) \ taken) : \A j \in ((1..T) \ taken) : RLe(X[i], X[j])}
Take == /\ RGt(left, 0)
        /\ \E i \in Worst : LET m == RMin(p[i], left) IN
             /\ taken' = taken \cup {i}
             /\ left' = RSub(left, m)
             /\ acc' = RSub(acc, RMul(m, X[i]))
             /\ last' = IF RGt(m, 0) THEN X[i] ELSE last
        /\ UNCHANGED dist
Stop == /\ ~RGt(left, 0) /\ left # "stop"
        /\ CSVWrite("%1$s", <<ToJson([X |-> X, p |-> p, a |-> a])>>, IOEnv.VEMIT)
        /\ left' = "stop" /\ UNCHANGED <<X, p, a, taken, acc, last>>
Next == Take \/ Stop

Done == left = "stop"
SweepIsQuantile  == Done => REq(last, Quantile(X, p, a))
SweepIsShortfall == Done => REq(RDiv(acc, a), CVaR(X, p, a))
TailBeatsVar     == Done => RLe(VaR(X, p, a), CVaR(X, p, a))
TailBeatsMean    == Done => RLe(RNeg(Mean(X, p)), CVaR(X, p, a))
\* the value is the Rockafellar-Uryasev minimum
IsMinimum == Done => \A i \in 1..T : RLe(CVaR(X, p, a), ShortfallAt(X, p, a, X[i]))
\* dropping empty scenarios and merging equal ones changes nothing
Keep == SelectSeq([i \in 1..T |-> i], LAMBDA i : RGt(p[i], 0))
DropEmpty == Done => LET XX == [k \in 1..Len(Keep) |-> X[Keep[k]]]
                         pp == [k \in 1..Len(Keep) |-> p[Keep[k]]]
                     IN REq(CVaR(XX, pp, a), CVaR(X, p, a)) /\ REq(VaR(XX, pp, a), VaR(X, p, a))
Merge == (Done /\ T > 1 /\ REq(X[1], X[2])) =>
           LET XX == Tail(X)  pp == [k \in 1..T - 1 |-> IF k = 1 THEN RAdd(p[1], p[2]) ELSE p[k + 1]]
           IN REq(CVaR(XX, pp, a), CVaR(X, p, a)) /\ REq(VaR(XX, pp, a), VaR(X, p, a))
=============================================================================
