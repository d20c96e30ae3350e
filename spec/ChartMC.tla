------------------------------ MODULE ChartMC ------------------------------
(* A chart is drawn item by item.  Tables: small frontiers with ties,        *)
(* unsorted columns, zero risks, with or without an alternate risk.         *)
EXTENDS Charts, CSV, IOUtils, Json

CONSTANTS MaxFronts, MarkSets, Rfs
VARIABLES fs, req, drawn, todo, phase
vars == <<fs, req, drawn, todo, phase>>

Tab(r, s, a, m) == [ret |-> TLCEval([i \in 1..Len(r) |-> R(r[i], 4)]), risk |-> TLCEval([i \in 1..Len(s) |-> R(s[i], 4)]), measure |-> m,
                    alts |-> IF a = <<>> THEN <<>> ELSE <<[name |-> "Alt", v |-> TLCEval([i \in 1..Len(a) |-> R(a[i], 4)])]>>]
Tables == <<Tab(<<1, 2, 3>>, <<1, 2, 4>>, <<3, 1, 2>>, "A"), Tab(<<3, 1, 3>>, <<2, 2, 1>>, <<>>, "A"), Tab(<<1, 2>>, <<0, 0>>, <<0, 1>>, "B"),
            Tab(<<0, 2>>, <<0, 1>>, <<2, 2>>, "B"), Tab(<<2>>, <<3>>, <<1>>, "A")>>
MarkSeqs == <<<<>>, <<"min_risk", "max_return">>, <<"tangency">>, <<"max_return", "tangency", "min_risk">>, <<"best">>>>
Overs == {<<>>, <<"Alt">>, <<"Nope", "Alt">>}

Init == /\ fs = <<>> /\ drawn = <<>> /\ todo = <<>> /\ phase = "collect"
        /\ \E l \in {"", "Alt", "A"}, m \in MarkSets, rf \in Rfs, o \in Overs, d \in {TRUE, FALSE} :
             req = [label |-> l, marks |-> MarkSeqs[m], rf |-> IF rf = 9 THEN "none" ELSE R(rf, 4), over |-> o, dots |-> d]
Add == /\ phase = "collect" /\ Len(fs) < MaxFronts /\ \E i \in 1..Len(Tables) : fs' = Append(fs, Tables[i])
       /\ UNCHANGED <<req, drawn, todo, phase>>
Refuse == /\ phase = "collect" /\ fs # <<>> /\ Undrawable(fs, req) /\ phase' = "refused" /\ UNCHANGED <<fs, req, drawn, todo>>
Begin == /\ phase = "collect" /\ fs # <<>> /\ ~Undrawable(fs, req) /\ phase' = "draw" /\ todo' = Sheet(fs, req, 1) /\ UNCHANGED <<fs, req, drawn>>
Draw == /\ phase = "draw" /\ todo # <<>> /\ drawn' = Append(drawn, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<fs, req, phase>>
Done == /\ phase = "draw" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<fs, req, drawn, todo>>
Emit == /\ phase \in {"done", "refused"} /\ phase' = "over" /\ UNCHANGED <<fs, req, drawn, todo>>
        /\ CSVWrite("%1$s", <<ToJson([fs |-> fs, req |-> req])>>, IOEnv.VEMIT)
Next == Add \/ Refuse \/ Begin \/ Draw \/ Done \/ Emit

Here(t) == {i \in 1..Len(drawn) : drawn[i].t = t}
OneLineEach == phase = "done" => \A k \in 1..Len(fs) : Cardinality({i \in Here("line") : drawn[i].f = k}) = 1
LineBeforeMark == \A i \in Here("mark") : \E j \in Here("line") : j < i /\ drawn[j].f = drawn[i].f
\* a mark stands on its line, nothing lies left of the least risk, above the largest return, or above the tangent
X(i) == RiskOf(fs[drawn[i].f], req.label)
Y(i) == fs[drawn[i].f].ret
Extreme == \A i \in Here("mark") : \A c \in drawn[i].at : \A j \in 1..Len(X(i)) :
  CASE drawn[i].m = "min_risk"   -> RLe(X(i)[c], X(i)[j])
    [] drawn[i].m = "max_return" -> RLe(Y(i)[j], Y(i)[c])
    [] drawn[i].m = "tangency"   -> RGt(X(i)[c], 0) /\ (RGt(X(i)[j], 0) => RLe(RMul(RSub(Y(i)[j], req.rf), X(i)[c]),
                                                                      RAdd(RMul(RSub(Y(i)[c], req.rf), X(i)[j]), Tol8)))
NoneLost == LET ks == TLCEval([k \in 1..Len(fs) |-> fs[k].measure]) ps == Panels(ks) IN
  /\ \A k \in 1..Len(fs) : Cardinality({p \in 1..Len(ps) : \E i \in 1..Len(ps[p]) : ps[p][i] = k}) = 1
  /\ \A p \in 1..Len(ps) : \A i, j \in 1..Len(ps[p]) : ks[ps[p][i]] = ks[ps[p][j]] /\ (i < j => ps[p][i] < ps[p][j])
Frozen == [][phase # "collect" => fs' = fs /\ req' = req]_vars
OnlyAdds == [][\E s \in {<<>>} \cup {<<x>> : x \in {drawn'[i] : i \in 1..Len(drawn')}} : drawn' = drawn \o s]_vars
=============================================================================
