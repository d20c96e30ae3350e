------------------------------- MODULE Prob -------------------------------
(* Scenario probability vectors: proper distributions, resolution of       *)
(* supplied masses, generator laws, effective numbers of scenarios.        *)
EXTENDS Lin, TLC

Proper(p, n)  == /\ IsVec(p, n) /\ n >= 1
                 /\ \A i \in 1..n : RLe(0, p[i])
                 /\ RNear(RSum(p), 1, Tol10)

\* masses a user may supply for n scenarios
Usable(m, n)       == /\ IsVec(m, n) /\ n >= 1
                      /\ \A i \in 1..n : RLe(0, m[i])
                      /\ RGt(RSum(m), 0)
StrictlyUsable(m, n) == Usable(m, n) /\ \A i \in 1..n : RGt(m[i], 0)
Normal(m)          == LET s == RSum(m) IN TLCEval([i \in 1..Len(m) |-> RDiv(m[i], s)])
NearOne(m)         == RNear(RSum(m), 1, R(11, 1000000))     \* may be used as given

\* out is what resolving m must give
Resolved(m, out) ==
  /\ Len(out) = Len(m) /\ \A i \in 1..Len(m) : RLe(0, out[i])
  /\ IF NearOne(m) THEN VNear(out, m, RMul(R(11, 1000000), VMax(m)))
                   ELSE VNear(out, Normal(m), Tol12)
  /\ REq(RSum(m), 1) => VNear(out, m, RPow(R(1, 10), 15))

\* ---- generator laws -------------------------------------------------------
Ln2 == RLn(2)
ExpLaw(p, n, hl) ==      \* constant ratio 2^(1/hl), newest heaviest
  LET r == RExp(RDiv(Ln2, hl)) IN
  /\ \A t \in 1..n - 1 : RLe(p[t], p[t + 1])
  /\ \A t \in 1..n - 1 : RGt(p[t], RPow(R(1, 10), 250)) => RClose(RDiv(p[t + 1], p[t]), r, Tol10)
  /\ (RIsInt(hl) /\ RLe(hl, 4096)) =>
       LET k == RToInt(hl) IN
       \A t \in 1..n - k : RGt(p[t], RPow(R(1, 10), 250)) => RClose(RDiv(p[t + k], p[t]), 2, Tol10)
StdDev(x) == LET n == Len(x) m == RDiv(RSum(x), n) IN
  RSqrt(RDiv(RSum([i \in 1..n |-> RSq(RSub(x[i], m))]), n - 1))
Silverman(x) == RMul(RMul(R(53, 50), StdDev(x)), RExp(RDiv(RNeg(RLn(Len(x))), 5)))
KernelW(v, h, c) == TLCEval([i \in 1..Len(v) |-> RExp(RNeg(RDiv(RSq(RSub(v[i], c)), RMul(2, RSq(h)))))])
KernelLaw(p, v, h, c, tol) == LET w == KernelW(v, h, c) IN VNear(p, Normal(w), tol)
KernelOrder(p, v, c) == \A i, j \in 1..Len(v) :
   RLt(RAbs(RSub(v[i], c)), RAbs(RSub(v[j], c))) => RLe(p[j], p[i])

\* ---- effective numbers ---------------------------------------------------
Entropy(p) == RNeg(RSum([i \in 1..Len(p) |-> IF RGt(p[i], 0) THEN RMul(p[i], RLn(p[i])) ELSE 0]))
Ens(p)     == RExp(Entropy(p))
Hhi(p)     == RDiv(1, RSum([i \in 1..Len(p) |-> RSq(p[i])]))
KL(q, p)   == RSum([i \in 1..Len(q) |-> IF RGt(q[i], 0) THEN RMul(q[i], RLn(RDiv(q[i], p[i]))) ELSE 0])
=============================================================================
