-------------------------------- MODULE Niw --------------------------------
(* Normal-inverse-Wishart conjugate updating.                              *)
(* A belief is [mu, S, t, nu]; an observed sample is [mu, S, n].           *)
EXTENDS Lin, TLC

Update(b, s) ==
  LET t1 == RAdd(b.t, s.n)
      n1 == RAdd(b.nu, s.n)
      d  == VSub(b.mu, s.mu)
      k  == RDiv(1, RAdd(RDiv(1, s.n), RDiv(1, b.t)))
      m  == VScale(RDiv(1, t1), VAdd(VScale(b.t, b.mu), VScale(s.n, s.mu)))
      sg == MScale(RDiv(1, n1), MAdd(MAdd(MScale(b.nu, b.S), MScale(s.n, s.S)), MScale(k, Outer(d, d))))
  IN [mu |-> m, S |-> sg, t |-> t1, nu |-> n1]

\* sample moments of a sequence of observations (covariance divides by n)
SampleOf(xs) ==
  LET n == Len(xs) d == Len(xs[1])
      m == TLCEval([j \in 1..d |-> RDiv(RSum(Col(xs, j)), n)])
      c == TLCEval([i \in 1..d |-> [j \in 1..d |->
             RDiv(RSum([k \in 1..n |-> RMul(RSub(xs[k][i], m[i]), RSub(xs[k][j], m[j]))]), n)]])
  IN [mu |-> m, S |-> c, n |-> R(n, 1)]

SMuOk(b)    == RGt(b.nu, 2)
SMu(b)      == MScale(RDiv(b.nu, RMul(b.t, RSub(b.nu, 2))), b.S)
SigmaCe(b)  == MScale(RDiv(b.nu, RAdd(b.nu, Len(b.mu) + 1)), b.S)

\* ---- chi-square distribution function: regularised incomplete gamma -----
RECURSIVE AtanS(_, _, _, _)
AtanS(x, k, pw, acc) == IF k > 40 THEN acc      \* arctan(1/x), x integer >= 5
  ELSE AtanS(x, k + 1, RDiv(pw, RMul(-1, x * x)), RAdd(acc, RDiv(pw, 2 * k + 1)))
Pi == TLCEval(RSub(RMul(16, AtanS(5, 0, R(1, 5), R(0, 1))), RMul(4, AtanS(239, 0, R(1, 239), R(0, 1)))))
RECURSIVE GammaHalf(_)
GammaHalf(k) == IF k = 2 THEN R(1, 1) ELSE IF k = 1 THEN RSqrt(Pi) ELSE RMul(R(k - 2, 2), GammaHalf(k - 2))   \* Gamma(k/2)
Digits(x) == RDiv(RFloor(RMul(x, RPow(R(10, 1), 40))), RPow(R(10, 1), 40))      \* keep numbers short
RECURSIVE GSer(_, _, _, _, _)
GSer(t, z, a, n, acc) == IF n > 220 \/ RLt(t, RPow(R(1, 10), 22)) THEN acc
  ELSE LET t2 == Digits(RDiv(RMul(t, z), RAdd(a, n + 1))) IN GSer(t2, z, a, n + 1, RAdd(acc, t2))
Chi2Cdf(x, k) ==
  LET z == Digits(RDiv(x, 2)) a == R(k, 2)
      t0 == RExp(RSub(RSub(RMul(a, RLn(z)), z), RLn(GammaHalf(k + 2))))
  IN GSer(t0, z, a, 0, t0)

\* gamma_mu^2 = q nu/(T (nu-2)):  the radius determines q, whose probability must be p
RadiusMuOk(b, p, g) == LET q == RDiv(RMul(RMul(RSq(g), b.t), RSub(b.nu, 2)), b.nu)
                       IN RGt(q, 0) /\ RNear(Chi2Cdf(q, Len(b.mu)), p, Tol8)
RadiusSigmaOk(b, p, c) ==
  LET N == Len(b.mu) d == RAdd(b.nu, N + 1)
      x == RSub(c, RDiv(b.nu, d))
      q == RDiv(RMul(RSq(x), RPow(d, 3)), RMul(2, RSq(b.nu)))
  IN RGt(x, 0) /\ RNear(Chi2Cdf(q, (N * (N + 1)) \div 2), p, Tol8)
=============================================================================
