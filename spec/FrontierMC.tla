----------------------------- MODULE FrontierMC -----------------------------
(* All small frontiers and all short query sequences on them.              *)
EXTENDS Frontier, CSV, IOUtils, Json

CONSTANTS M, Lev, Alt, Targets, Depth     \* Targets: halves

AltQ == {<<2, 0, 1>>, <<1, 1, 0>>}
AltT == [1..M -> Lev]
VARIABLES F, log, left
vars == <<F, log, left>>
Q(k, l, x) == [kind |-> k, label |-> l, x |-> x]
Half(k) == R(k, 2)
Init == /\ \E r \in [1..M -> Lev], s \in [1..M -> Lev], a \in Alt :
             F = [ret |-> TLCEval([i \in 1..M |-> R(r[i], 1)]), risk |-> TLCEval([i \in 1..M |-> R(s[i], 1)]), measure |-> "Primary",
                  alts |-> <<[name |-> "Other", v |-> TLCEval([i \in 1..M |-> R(a[i], 1)])]>>]
        /\ log = <<>> /\ left = Depth
Ask(q) == /\ left > 0 /\ left' = left - 1 /\ F' = F
          /\ LET a == Answers(F, q) IN log' = Append(log, [q |-> q, a |-> a])
Labels == {"", "Other"}
MinRisk     == \E l \in Labels : Ask(Q("min_risk", l, 0))
MaxReturn   == Ask(Q("max_return", "", 0))
Tangency    == \E t \in Targets : Ask(Q("tangency", "", Half(t)))
AtRisk      == \E l \in Labels, t \in Targets : Ask(Q("at_risk", l, Half(t)))
AtReturn    == \E l \in Labels, t \in Targets : Ask(Q("at_return", l, Half(t)))
ClosestRisk == \E l \in Labels, t \in Targets : Ask(Q("closest_risk", l, Half(t)))
AtPct       == \E l \in Labels, t \in Targets : Ask(Q("at_percentile", l, RDiv(Half(t), 2)))
Emit == /\ left = 0 /\ left' = -1 /\ UNCHANGED <<F, log>>
        /\ CSVWrite("%1$s", <<ToJson([F |-> F])>>, IOEnv.VEMIT)
Next == MinRisk \/ MaxReturn \/ Tangency \/ AtRisk \/ AtReturn \/ ClosestRisk \/ AtPct \/ Emit

Frozen == [][F' = F]_vars
Same == \A i, j \in 1..Len(log) : log[i].q = log[j].q => log[i].a = log[j].a
Last == log[Len(log)]
Always == Len(log) > 0 => (Last.q.kind \in {"min_risk", "max_return", "closest_risk"} => Last.a # {})
\* a risk budget no portfolio meets, a return no portfolio reaches
Refusal == Len(log) > 0 =>
  /\ Last.q.kind = "at_risk" => (Last.a = {} <=> \A i \in Cols(F) : RLt(Last.q.x, RiskOf(F, Last.q.label)[i]))
  /\ Last.q.kind = "at_return" => (Last.a = {} <=> \A i \in Cols(F) : RLt(F.ret[i], Last.q.x))
\* duality: spending the risk of the return answer buys at least that return
Duality == Len(log) > 0 /\ Last.q.kind = "at_return" =>
  \A i \in Last.a : LET r == RiskOf(F, Last.q.label)[i]
                        b == Answers(F, Q("at_risk", Last.q.label, r)) IN \A j \in b : RLe(Last.q.x, F.ret[j])
MinRiskIsLowest == Len(log) > 0 /\ Last.q.kind = "at_risk" /\ Last.a # {} =>
  \A i \in Last.a : \A j \in Answers(F, Q("min_risk", Last.q.label, 0)) : RLe(RiskOf(F, Last.q.label)[j], RiskOf(F, Last.q.label)[i])
EndsAreExtremes == Len(log) > 0 =>
  /\ \A i \in Answers(F, Q("at_percentile", "", 0)) : i \in ArgMin(Cols(F), F.risk)
  /\ \A i \in Answers(F, Q("at_percentile", "", R(100, 1))) : i \in ArgMax(Cols(F), F.risk)
=============================================================================
