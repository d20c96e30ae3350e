----------------------------- MODULE StorageMC ------------------------------
(* A caller stores up to three inputs, each in any layout, and asks; the     *)
(* reader finds the numbers put in, and each number has a place of its own.  *)
EXTENDS Storage, TLC, CSV, IOUtils, Json
CONSTANT Inputs

VARIABLES want, kinds, stored, guard, asked
vars == <<want, kinds, stored, guard, asked>>

Num(i) == [r \in 1..2 |-> [c \in 1..3 |-> 100 * i + 10 * r + c]]
Init == want \in 1..Inputs /\ kinds = <<>> /\ stored = <<>> /\ guard \in {"open", "locked"} /\ asked = FALSE
Put(k) == /\ Len(stored) < want
          /\ kinds' = Append(kinds, k) /\ stored' = Append(stored, Lay(Num(Len(stored) + 1), 2, 3, k))
          /\ UNCHANGED <<want, guard, asked>>
Ask == /\ Len(stored) = want /\ ~asked /\ asked' = TRUE
       /\ CSVWrite("%1$s", <<ToJson([kinds |-> kinds, guard |-> guard])>>, IOEnv.VEMIT)
       /\ UNCHANGED <<want, kinds, stored, guard>>
Next == (\E k \in Kinds : Put(k)) \/ Ask

ReadsBack == \A i \in 1..Len(stored) : InBounds(stored[i]) /\ Read(stored[i]) = Num(i)
OwnPlaces == \A i \in 1..Len(stored) : LET s == stored[i] IN
  s.form = "strided" => Cardinality({Index(s, r, c) : r \in 1..2, c \in 1..3}) = 6
=============================================================================
