------------------------------- MODULE NiwMC -------------------------------
(* Observations arrive one by one; absorbing them one at a time, in two    *)
(* batches or all at once gives the same belief, in any order.             *)
EXTENDS Niw, CSV, IOUtils, Json

CONSTANTS D, Pts, Counts, MaxObs

Vecs == [1..D -> Pts]
VARIABLES prior, seen, belief, ph
vars == <<prior, seen, belief, ph>>
Vr(v) == TLCEval([j \in 1..D |-> R(v[j] - 1, 2)])
Scale(k) == IF D = 1 THEN << <<R(k, 1)>> >> ELSE << <<R(2, 1), R(k - 2, 2)>>, <<R(k - 2, 2), R(1, 1)>> >>
Init == /\ \E m \in Vecs, t \in Counts, v \in Counts \cup {0}, k \in {1, 3} :
             prior = [mu |-> Vr(m), S |-> Scale(k), t |-> R(t, 1), nu |-> R(v, 1)]
        /\ seen = <<>> /\ belief = prior /\ ph = "run"
Observe == /\ ph = "run" /\ Len(seen) < MaxObs
           /\ \E x \in Vecs : /\ seen' = Append(seen, Vr(x))
                              /\ belief' = Update(belief, SampleOf(<<Vr(x)>>))
           /\ UNCHANGED <<prior, ph>>
Close == /\ ph = "run" /\ Len(seen) > 0 /\ ph' = "closed" /\ UNCHANGED <<prior, seen, belief>>
         /\ CSVWrite("%1$s", <<ToJson([prior |-> prior, sample |-> SampleOf(seen)])>>, IOEnv.VEMIT)
Next == Observe \/ Close

Batch == Len(seen) > 0 => LET b == Update(prior, SampleOf(seen)) IN
  VEq(b.mu, belief.mu) /\ MEq(b.S, belief.S) /\ REq(b.t, belief.t) /\ REq(b.nu, belief.nu)
TwoBatches == Len(seen) > 1 => \A k \in 1..Len(seen) - 1 :
  LET b == Update(Update(prior, SampleOf(SubSeq(seen, 1, k))), SampleOf(SubSeq(seen, k + 1, Len(seen))))
  IN VEq(b.mu, belief.mu) /\ MEq(b.S, belief.S)
Symm == Symmetric(belief.S)
Def  == RGt(belief.nu, 0) => IsPSD(belief.S, R(1, 1000000))
CountsGrow == REq(belief.t, RAdd(prior.t, Len(seen))) /\ REq(belief.nu, RAdd(prior.nu, Len(seen)))
Between == Len(seen) > 0 => \A j \in 1..D : LET m == SampleOf(seen).mu[j] IN
  RLe(RMin(m, prior.mu[j]), belief.mu[j]) /\ RLe(belief.mu[j], RMax(m, prior.mu[j]))
\* the incomplete gamma series reproduces known quantiles
ASSUME RNear(Pi, RDiv(RPow(R(10, 1), 20), "31830988618379067153"), Tol12)
ASSUME /\ RNear(Chi2Cdf(RDiv(38415, 10000), 1), RDiv(95, 100), Tol5)
       /\ RNear(Chi2Cdf(RMul(2, RLn(2)), 2), R(1, 2), Tol12)
       /\ RNear(Chi2Cdf(RDiv(183070, 10000), 10), RDiv(95, 100), Tol5)
=============================================================================
