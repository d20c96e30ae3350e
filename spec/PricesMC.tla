------------------------------- MODULE PricesMC -------------------------------
(* Rows of prices (with gaps) arrive; the forward-filled return and the       *)
(* compounded wealth of every asset are carried along.                        *)
EXTENDS Prices, CSV, IOUtils, Json

CONSTANTS MaxRows

VARIABLES P, last, growth, fwd
pvars == <<P, last, growth, fwd>>

Cell == {R(1, 2), R(1, 1), R(2, 1), "nan"}
RowSet == {<<a, b>> : a \in Cell, b \in {R(1, 1), R(4, 1), "nan"}}
Init == \E x \in RowSet : P = <<x>> /\ last = x /\ growth = <<R(1, 1), R(1, 1)>> /\ fwd = <<>>
Ret(j, x) == IF Known(last[j]) /\ Known(x[j]) THEN Ratio(last[j], x[j], "simple") ELSE "nan"
Quote == /\ Len(P) < MaxRows
         /\ \E x \in RowSet :
            /\ P' = Append(P, x) /\ last' = x
            /\ growth' = [j \in 1..2 |-> IF Known(Ret(j, x)) THEN RMul(growth[j], RAdd(1, Ret(j, x))) ELSE growth[j]]
            /\ fwd' = Append(fwd, [j \in 1..2 |-> IF Known(Ret(j, x)) THEN Ret(j, x) ELSE IF fwd = <<>> THEN R(0, 1) ELSE fwd[Len(fwd)][j]])
            /\ IF Len(P') = MaxRows THEN CSVWrite("%1$s", <<ToJson([P |-> P'])>>, IOEnv.VEMIT) ELSE TRUE
Next == Quote

OneRowPerPair == Len(P) > 1 => Len(Filled(P, "simple", "zero")) = Len(P) - 1 /\ Len(Filled(P, "simple", "drop")) <= Len(P) - 1
ForwardFill   == Len(P) > 1 => MEq(Filled(P, "simple", "ffill"), fwd)
Mirror(X)     == [t \in 1..Len(X) |-> X[Len(X) - t + 1]]
BackFill      == Len(P) > 1 => LET Rw == RawReturns(P, "simple") IN \A t \in 1..Len(Rw), j \in 1..2 :
                    REq(FilledAt(Rw, t, j, "bfill"), FilledAt(Mirror(Rw), Len(Rw) - t + 1, j, "ffill"))
NoGapNoFill   == GoodPrices(P) => \A h \in {"ffill", "bfill", "zero", "drop"} : MEq(Filled(P, "simple", h), Returns(P, "simple"))
Compounds     == GoodPrices(P) => \A j \in 1..2 :
                   /\ REq(growth[j], RDiv(P[Len(P)][j], P[1][j]))
                   /\ RNear(RSum(Col(Returns(P, "log"), j)), RLn(growth[j]), Tol12)
                   /\ \A t \in 1..Len(P) - 1 : RNear(ToLog(Returns(P, "simple")[t][j]), Returns(P, "log")[t][j], Tol12)
DropsOnlyGaps == Len(P) > 1 => \A t \in 1..Len(P) - 1 : Complete(RawReturns(P, "simple"), t) =>
                    \E k \in 1..Len(Filled(P, "simple", "drop")) : VEq(Filled(P, "simple", "drop")[k], RawReturns(P, "simple")[t])
Distribution  == GoodPrices(P) => LET a == [mu |-> <<>>, cov |-> <<>>, R |-> <<Returns(P, "simple")>>, p |-> <<>>] IN
                    /\ Buildable(a, << <<"u", "v">>, <<"u", "v">> >>) /\ ~Buildable(a, << <<"u", "v">>, <<"v", "u">> >>) /\ ~Buildable(a, << <<"u">> >>)
                    /\ REq(RSum(Mass(a)), 1) /\ IsPSD(CovOf(a)[1], Tol12)
=============================================================================
