----------------------------- MODULE FeasibleMC -----------------------------
(* A user declares restrictions one at a time, in any order.  In every     *)
(* reachable declaration the row system is exactly the declared region,    *)
(* and declaring more never admits more.  Every declaration is emitted.    *)
EXTENDS Feasible, CSV, IOUtils, Json

CONSTANT Ns        \* numbers of assets

Coords(n) == [1..n -> {R(k, 4) : k \in 0..6} \cup {R(-1, 4), R(-1, 2)}]
Empty(n) == [n |-> n, long |-> FALSE, total |-> "none", bounds |-> [kind |-> "none", e |-> <<>>],
             rel |-> <<>>, groups |-> <<>>, gh |-> <<>>, ab |-> <<>>]
Pairs == {<<R(1, 4), R(1, 2)>>, <<"none", R(1, 2)>>, <<R(-1, 4), "none">>}
Vary(n, lo, hi) == [i \in 1..n |-> IF i = 1 THEN <<lo, hi>> ELSE <<"none", R(3, 4)>>]

VARIABLE d
vars == <<d>>

Init == \E n \in Ns : d = Empty(n)
Set(x) == d' = x
LongOnly == ~d.long /\ Set([d EXCEPT !.long = TRUE])
Budget   == ~Given(d.total) /\ \E t \in {R(1, 1), R(1, 2)} : Set([d EXCEPT !.total = t])
Common   == d.bounds.kind = "none" /\ \E p \in Pairs : Set([d EXCEPT !.bounds = [kind |-> "pair", e |-> <<p>>]])
PerAsset == d.bounds.kind = "none" /\ \E p \in Pairs : Set([d EXCEPT !.bounds = [kind |-> "list", e |-> Vary(d.n, p[1], p[2])]])
ByKey    == d.bounds.kind = "none" /\ \E p \in Pairs, i \in 1..d.n :
              Set([d EXCEPT !.bounds = [kind |-> "map", e |-> <<<<i, p[1], p[2]>>>>]])
Relative == d.rel = <<>> /\ \E i, j \in 1..d.n : i # j /\ Set([d EXCEPT !.rel = <<<<i, j, R(1, 4)>>>>])
Group    == d.groups = <<>> /\ \E g \in {<<<<1>>, R(1, 4), R(1, 2)>>, <<<<d.n, 1>>, R(0, 1), R(3, 4)>>} :
              Set([d EXCEPT !.groups = <<g>>])
Row      == d.gh = <<>> /\ Set([d EXCEPT !.gh = <<<<[i \in 1..d.n |-> i - 2], R(1, 4)>>>>])
EqRow    == d.ab = <<>> /\ Set([d EXCEPT !.ab = <<<<[i \in 1..d.n |-> IF i = 1 THEN 1 ELSE -1], 0>>>>])
Next == LongOnly \/ Budget \/ Common \/ PerAsset \/ ByKey \/ Relative \/ Group \/ Row \/ EqRow

Emit == CSVWrite("%1$s", <<ToJson(d)>>, IOEnv.VEMIT)
RowsAreTheRegion == WellFormed(d) /\ LET hs == Halfspaces(d) hp == Hyperplanes(d) IN
    \A w \in Coords(d.n) : Admits(d, w) <=> (Below(hs, w) /\ OnAll(hp, w))
OnlyShrinks == [][\A w \in Coords(d.n) : Admits(d', w) => Admits(d, w)]_vars
=============================================================================
