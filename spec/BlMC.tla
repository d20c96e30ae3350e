-------------------------------- MODULE BlMC --------------------------------
(* Views arrive one at a time.  In every reachable belief the closed form  *)
(* over all views seen so far, in any order, is the belief itself; each    *)
(* view moves the mean towards its target and never adds uncertainty.      *)
EXTENDS Bl, CSV, IOUtils, Json

CONSTANTS N, MaxViews, Qs, Taus, Confs

Picks == {Unit(N, i) : i \in 1..N}
         \cup {[k \in 1..N |-> IF k = x[1] THEN 1 ELSE IF k = x[2] THEN -1 ELSE 0] : x \in {y \in (1..N) \X (1..N) : y[1] # y[2]}}
Sigma(k) == TLCEval([i \in 1..N |-> [j \in 1..N |-> IF i = j THEN R(i + 1, 1) ELSE R(k, 2)]])
VARIABLES b, vs, confs, m, M
vars == <<b, vs, confs, m, M>>
Init == /\ \E k \in {1, 3}, t \in Taus, x \in {0, 1} :
             b = [sigma |-> Sigma(k - 2), tau |-> R(1, t), kind |-> IF x = 0 THEN "pi" ELSE "market", delta |-> R(2, 1),
                  x |-> TLCEval([i \in 1..N |-> R(i, 2)])]
        /\ vs = <<>> /\ confs = <<>> /\ m = PriorMean(b) /\ M = TauSigma(b)
Err(p, c) == RMul(RDiv(RSub(1, R(c, 8)), R(c, 8)), Quad(p, TauSigma(b)))
State == /\ Len(vs) < MaxViews
         /\ \E p \in Picks, qq \in Qs, c \in Confs :
              LET l == Learn(m, M, p, R(qq - 2, 2), Err(p, c)) IN
              /\ vs' = Append(vs, [p |-> p, q |-> R(qq - 2, 2)]) /\ confs' = Append(confs, R(c, 8))
              /\ m' = l.m /\ M' = l.M
         /\ UNCHANGED b
Next == State
Emit == CSVWrite("%1$s", <<ToJson([b |-> b, vs |-> vs, confs |-> confs])>>, IOEnv.VEMIT)
Om(seq, cs) == Idzorek(b, seq, cs, TRUE)
Rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
ClosedForm == LET r == Posterior(b, vs, Om(vs, confs)) IN
   r.ok /\ VEq(r.mu, m) /\ (Len(vs) > 0 => MEq(r.cov, MAdd(b.sigma, M)))
AnyOrder == Len(vs) > 1 => LET r == Posterior(b, Rev(vs), Om(Rev(vs), Rev(confs))) IN VEq(r.mu, m) /\ MEq(r.cov, MAdd(b.sigma, M))
PrecisionForm == Len(vs) > 0 => LET P == PickMat(vs) o == Om(vs, confs)
                                    prec == MAdd(Inverse(TauSigma(b)), MM(MM(Transpose(P), Inverse(o)), P))
                                IN MEq(Inverse(prec), M)
Definite == IsPD(M) /\ Symmetric(M)
\* one view of confidence c moves the view's value exactly the fraction c of the way
Fraction == Len(vs) = 1 => LET v == vs[1] g0 == RSub(v.q, RDot(v.p, PriorMean(b))) IN
   REq(RSub(v.q, RDot(v.p, m)), RMul(RSub(1, confs[1]), g0))
NeverLessCertain == [][IsPSD(MSub(M, M'), R(1, 1000000000))]_vars
TowardsTheView == [][LET v == vs'[Len(vs')] g0 == RSub(v.q, RDot(v.p, m)) g1 == RSub(v.q, RDot(v.p, m')) IN
   RLe(0, RMul(g0, g1)) /\ RLe(RAbs(g1), RAbs(g0))]_vars
=============================================================================
