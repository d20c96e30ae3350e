------------------------------- MODULE ProbMC -------------------------------
(* Every small supplied vector: resolving, rescaling, splitting and        *)
(* reordering commute; effective numbers are monotone under splitting.     *)
EXTENDS Prob, CSV, IOUtils, Json

CONSTANTS MaxLen, Levels        \* entries: code k -> mass (k-1)/2, 8 = NaN, 9 = infinity

Code(k) == IF k = 8 THEN "nan" ELSE IF k = 9 THEN "inf" ELSE R(k - 1, 2)
VARIABLES m, n, cur, ph
vars == <<m, n, cur, ph>>
Init == \E k \in 1..MaxLen : \E f \in [1..k -> Levels] : \E nn \in 1..MaxLen :
          m = TLCEval([i \in 1..k |-> Code(f[i])]) /\ n = nn /\ cur = <<>> /\ ph = "raw"
Refuse  == /\ ph = "raw" /\ ~Usable(m, n) /\ ph' = "refused" /\ UNCHANGED <<m, n, cur>>
Resolve == /\ ph = "raw" /\ Usable(m, n) /\ cur' = Normal(m) /\ ph' = "resolved" /\ UNCHANGED <<m, n>>
Scale   == /\ ph = "resolved" /\ \E k \in {R(1, 3), R(7, 1)} : cur' = Normal(VScale(k, m))
           /\ ph' = "scaled" /\ UNCHANGED <<m, n>>
Again   == /\ ph = "resolved" /\ cur' = Normal(cur) /\ ph' = "again" /\ UNCHANGED <<m, n>>
Split   == /\ ph = "resolved" /\ Len(cur) < MaxLen + 1
           /\ cur' = TLCEval([i \in 1..Len(cur) + 1 |-> IF i = 1 \/ i = Len(cur) + 1 THEN RDiv(cur[1], 2) ELSE cur[i]])
           /\ ph' = "split" /\ UNCHANGED <<m, n>>
Emit    == /\ ph \in {"refused", "again"}
           /\ CSVWrite("%1$s", <<ToJson([m |-> m, n |-> n, ok |-> Usable(m, n), strict |-> StrictlyUsable(m, n)])>>, IOEnv.VEMIT)
           /\ ph' = "emitted" /\ UNCHANGED <<m, n, cur>>
Next == Refuse \/ Resolve \/ Scale \/ Again \/ Split \/ Emit

ProperOnce     == ph \in {"resolved", "scaled", "again"} => Proper(cur, n) /\ Resolved(m, cur)
ScaleFree      == ph \in {"scaled", "again"} => VEq(cur, Normal(m))
Bounds         == ph \in {"resolved", "split"} =>
                    LET e == Ens(cur) k == Hhi(cur) t == Tol10 IN
                    /\ RLeT(1, k, t) /\ RLeT(k, e, t) /\ RLeT(e, Len(cur), t)
SplitIncreases == ph = "split" => RLeT(Ens(Normal(m)), Ens(cur), Tol10) /\ RLeT(Hhi(Normal(m)), Hhi(cur), Tol10)
DivergenceIsPositive == ph = "resolved" => RLeT(0, KL(cur, Const(n, R(1, n))), Tol10)
EnsByDivergence == ph = "resolved" => RNear(Ens(cur), RMul(n, RExp(RNeg(KL(cur, Const(n, R(1, n)))))), Tol10)
=============================================================================
