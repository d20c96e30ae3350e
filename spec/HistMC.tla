------------------------------- MODULE HistMC -------------------------------
(* Two objects over the same data.  Cells 1 (data) and 2 (costs) belong to   *)
(* the caller, who may overwrite them, overwrite what was handed out, change *)
(* the constraints or costs in force, or ask with some for one call; a call  *)
(* may fail (constraints 3 leave nothing to choose from).                    *)
EXTENDS Hist, Sequences, CSV, IOUtils, Json

CONSTANTS MaxLen

VARIABLES cells, own, dists, cons, costs, fronts, given, script
vars == <<cells, own, dists, cons, costs, fronts, given, script>>

Objs == {1, 2}
Init == /\ cells = [i \in {1, 2} |-> 0]
        /\ own = [o \in Objs |-> <<0, 0>>] /\ dists = [o \in Objs |-> 1] /\ cons = [o \in Objs |-> 1] /\ costs = [o \in Objs |-> 1]
        /\ fronts = <<>> /\ given = {} /\ script = <<>>
Log(r) == script' = Append(script, r)
More == Len(script) < MaxLen
\* the answer is a function of the object's own data and the effective configuration
Value(o, req, c, k) == <<req, c, k, dists[o], own[o]>>
Ask(o, req, c, k) ==
  /\ More
  /\ LET ec == Eff(c, cons[o]) ek == Eff(k, costs[o]) IN
     IF ec = 3 THEN /\ given' = given \cup { <<Key(req, ec, ek, dists[o]), "refused">> } /\ fronts' = fronts
     ELSE /\ given' = given \cup { <<Key(req, ec, ek, dists[o]), Value(o, req, ec, ek)>> }
          /\ fronts' = Append(fronts, [key |-> Key(req, ec, ek, dists[o]), cell |-> Value(o, req, ec, ek), mine |-> Value(o, req, ec, ek)])
  /\ Log([op |-> "ask", o |-> o, req |-> req, c |-> c, k |-> k]) /\ UNCHANGED <<cells, own, dists, cons, costs>>
SetCons(o, c) == /\ More /\ cons[o] # c /\ cons' = [cons EXCEPT ![o] = c]
                 /\ Log([op |-> "setc", o |-> o, req |-> "", c |-> c, k |-> 0]) /\ UNCHANGED <<cells, own, dists, costs, fronts, given>>
SetCosts(o, k) == /\ More /\ costs[o] # k /\ costs' = [costs EXCEPT ![o] = k]
                  /\ Log([op |-> "setk", o |-> o, req |-> "", c |-> 0, k |-> k]) /\ UNCHANGED <<cells, own, dists, cons, fronts, given>>
SetDist(o) == /\ More /\ dists[o] = 1 /\ dists' = [dists EXCEPT ![o] = 2]
              /\ Log([op |-> "setd", o |-> o, req |-> "", c |-> 0, k |-> 0]) /\ UNCHANGED <<cells, own, cons, costs, fronts, given>>
\* the caller writes to what it handed in
Mutate(i) == /\ More /\ cells[i] = 0 /\ cells' = [cells EXCEPT ![i] = 1]
             /\ Log([op |-> "mutate", o |-> i, req |-> "", c |-> 0, k |-> 0]) /\ UNCHANGED <<own, dists, cons, costs, fronts, given>>
\* the caller writes to the last thing it received
Spoil == /\ More /\ fronts # <<>> /\ fronts[Len(fronts)].cell # <<"spoilt">>
         /\ fronts' = [fronts EXCEPT ![Len(fronts)].cell = <<"spoilt">>, ![Len(fronts)].mine = <<"spoilt">>]
         /\ Log([op |-> "spoil", o |-> 0, req |-> "", c |-> 0, k |-> 0]) /\ UNCHANGED <<cells, own, dists, cons, costs, given>>
\* the caller assembles a frontier from arrays of its own (cell 1)
Make == /\ More /\ \A j \in 1..Len(fronts) : fronts[j].key # <<"made">>
        /\ fronts' = Append(fronts, [key |-> <<"made">>, cell |-> <<"made", cells[1]>>, mine |-> <<"made", cells[1]>>])
        /\ Log([op |-> "make", o |-> 0, req |-> "", c |-> 0, k |-> 0]) /\ UNCHANGED <<cells, own, dists, cons, costs, given>>
Query == /\ More /\ fronts # <<>> /\ Log([op |-> "query", o |-> 0, req |-> "", c |-> 0, k |-> 0])
         /\ UNCHANGED <<cells, own, dists, cons, costs, fronts, given>>
Emit == /\ Len(script) = MaxLen /\ CSVWrite("%1$s", <<ToJson([script |-> script])>>, IOEnv.VEMIT)
        /\ script' = Append(script, "end") /\ UNCHANGED <<cells, own, dists, cons, costs, fronts, given>>
Next == \/ \E o \in Objs : \/ \E r \in {"front", "point"} : \/ Ask(o, r, 0, 0) \/ Ask(o, r, 2, 0)
                           \/ Ask(o, "front", 3, 0) \/ Ask(o, "point", 0, 2) \/ Ask(o, "front", 2, 2)
                           \/ \E c \in {2, 3} : SetCons(o, c)
                           \/ SetCosts(o, 2) \/ SetDist(o)
        \/ \E i \in {1, 2} : Mutate(i)
        \/ Spoil \/ Make \/ Query \/ Emit

OwnKept    == \A o \in Objs : own[o] = <<0, 0>>
Functional == \A a, b \in given : a[1] = b[1] => a[2] = b[2]
FrontsKept == \A j \in 1..Len(fronts) : fronts[j].cell = fronts[j].mine
=============================================================================
