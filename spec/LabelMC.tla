------------------------------ MODULE LabelMC -------------------------------
(* All presentations of one, two or three labelled inputs over the universe  *)
(* a, b, c: the first in any order, the others in any order, with a label    *)
(* missing, replaced or added.                                               *)
EXTENDS Label, Sequences, CSV, IOUtils, Json

VARIABLES axes, want, done
vars == <<axes, want, done>>

Uni == <<"a", "b", "c">>
Orders == {s \in [1..3 -> {"a", "b", "c"}] : Cardinality(Rng(s)) = 3}
Odd == {<<"a", "b">>, <<"c", "a">>, <<"a", "x", "c">>, <<"x", "b", "a">>, <<"b", "a", "c", "x">>, <<"x", "c", "b", "a">>, <<"x", "y", "z">>}
Init == axes = <<>> /\ want \in 1..3 /\ done = FALSE
First(s) == axes = <<>> /\ axes' = <<s>> /\ UNCHANGED <<want, done>>
More(s)  == axes # <<>> /\ Len(axes) < want /\ axes' = Append(axes, s) /\ UNCHANGED <<want, done>>
Roles == [i \in 1..Len(axes) |-> "full"]
Emit == /\ Len(axes) = want /\ ~done /\ done' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([axes |-> axes, verdict |-> Verdict(axes, Roles, Uni)])>>, IOEnv.VEMIT)
        /\ UNCHANGED <<axes, want>>
Next == (\E s \in Orders : First(s)) \/ (\E s \in Orders \cup Odd : More(s)) \/ Emit

\* the figure input i carries for label l
Fig(i, l) == IF l = "a" THEN i ELSE IF l = "b" THEN 10 * i + 1 ELSE 100 * i + 7
ByName(i, l) == Fig(i, l)
ByPlace(i, l) == Fig(i, axes[i][Pos(axes[1], l)])
Full == Len(axes) = want
V == Verdict(axes, Roles, Uni)
Agree == \A i \in 1..Len(axes) : \A l \in Rng(Uni) : ByPlace(i, l) = ByName(i, l)
\* matching by place is right exactly when all are in one order, so a positional slip shows
PlaceRightIffAnswered == Full /\ V # "refused" => ((V = "answered") <=> Agree)
RefusedIffUnmatched   == Full => ((V = "refused") <=> \E i \in 1..Len(axes) : ~IsPerm(axes[i], Uni))
=============================================================================
