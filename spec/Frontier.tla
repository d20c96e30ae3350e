----------------------------- MODULE Frontier -----------------------------
(* An efficient frontier is an immutable table: M portfolios (columns of   *)
(* weights), their returns, a primary risk and named alternate risks.      *)
(* A query is answered by ANY stored column meeting its definition.        *)
EXTENDS Lin, TLC

Cols(F)       == 1..Len(F.ret)
HasRisk(F, l) == l = "" \/ l = F.measure \/ \E k \in 1..Len(F.alts) : F.alts[k].name = l
RiskOf(F, l)  == IF l = "" \/ l = F.measure THEN F.risk
                 ELSE F.alts[CHOOSE k \in 1..Len(F.alts) : F.alts[k].name = l].v

ArgMin(S, v)  == {i \in S : \A j \in S : RLe(v[i], v[j])}
ArgMax(S, v)  == {i \in S : \A j \in S : RLe(v[j], v[i])}
Sharpe(F, rf) == TLCEval([i \in Cols(F) |-> IF RGt(F.risk[i], 0) THEN RDiv(RSub(F.ret[i], rf), F.risk[i]) ELSE "nan"])
Risky(F)      == {i \in Cols(F) : RGt(F.risk[i], 0)}
NoRisk(F)     == \A i \in Cols(F) : RLe(RAbs(F.risk[i]), Tol8)      \* the ratio is undefined
\* doubles round the ratio: columns within 1e-12 of the best are equally good
BestSharpe(F, rf) == LET s == Sharpe(F, rf) IN
  {i \in Risky(F) : \A j \in Risky(F) : RLe(s[j], RAdd(s[i], RMul(Tol12, RAdd(1, RAbs(s[i])))))}

\* ranks 0..M-1 by increasing risk, ties in any order, divided by M-1
IsPercentiles(F, l, p) ==
  LET m == Len(F.ret) v == RiskOf(F, l) IN
  /\ Len(p) = m
  /\ \A i \in Cols(F) : \E k \in 0..m - 1 : RNear(p[i], IF m = 1 THEN 0 ELSE R(k, m - 1), Tol12)
  /\ \A i, j \in Cols(F) : i # j => RGt(RAbs(RSub(p[i], p[j])), Tol8)
  /\ \A i, j \in Cols(F) : RLt(v[i], v[j]) => RLt(p[i], p[j])
PctOf(x) == IF RLe(x, 1) THEN x ELSE RDiv(x, 100)
PctOk(x) == RNum(x) /\ RLe(0, x) /\ RLe(x, 100)
\* some tie order of the ranking makes column i nearest to x
NearestPct(F, l, x) ==
  LET m == Len(F.ret) v == RiskOf(F, l) IN
  {i \in Cols(F) :
     LET lo == Cardinality({j \in Cols(F) : RLt(v[j], v[i])})
         hi == Cardinality({j \in Cols(F) : RLe(v[j], v[i])}) - 1
         at(k) == IF m = 1 THEN R(0, 1) ELSE R(k, m - 1)
     IN \E k \in lo..hi : \A n \in 0..m - 1 :
          RLe(RAbs(RSub(at(k), x)), RAdd(RAbs(RSub(at(n), x)), Tol12))}

\* the set of columns that answer query q, {} when unattainable
Answers(F, q) ==
  CASE q.kind = "min_risk"     -> ArgMin(Cols(F), RiskOf(F, q.label))
    [] q.kind = "max_return"   -> ArgMax(Cols(F), F.ret)
    [] q.kind = "tangency"     -> IF NoRisk(F) THEN {} ELSE BestSharpe(F, q.x)
    [] q.kind = "at_risk"      -> LET ok == {i \in Cols(F) : RLe(RiskOf(F, q.label)[i], q.x)} IN ArgMax(ok, F.ret)
    [] q.kind = "at_return"    -> LET ok == {i \in Cols(F) : RLe(q.x, F.ret[i])} IN ArgMin(ok, RiskOf(F, q.label))
    [] q.kind = "closest_risk" -> LET v == RiskOf(F, q.label)
                                      d == TLCEval([i \in Cols(F) |-> RAbs(RSub(v[i], q.x))])
                                  IN {i \in Cols(F) : \A j \in Cols(F) : RLe(d[i], RAdd(d[j], RMul(Tol12, RAdd(1, RAbs(q.x)))))}
    [] q.kind = "at_percentile" -> IF PctOk(q.x) THEN NearestPct(F, q.label, PctOf(q.x)) ELSE {}
\* the risk reported with the answer
RiskShown(F, q) == IF q.kind \in {"max_return", "tangency"} THEN F.risk ELSE RiskOf(F, q.label)
=============================================================================
