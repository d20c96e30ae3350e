--------------------------------- MODULE Bl ---------------------------------
(* Black-Litterman: a Gaussian belief about the mean vector is conditioned *)
(* on noisy linear views.  BlMC.tla shows that learning the views one by   *)
(* one, in any order, gives the closed form below.                         *)
EXTENDS Lin, TLC

\* view = [p |-> row, q |-> target];  om = covariance of the view errors
TauSigma(b)   == MScale(b.tau, b.sigma)
PickMat(vs)   == TLCEval([k \in 1..Len(vs) |-> vs[k].p])
Targets(vs)   == TLCEval([k \in 1..Len(vs) |-> vs[k].q])
ViewCov(b, vs) == LET P == PickMat(vs) IN MM(MM(P, TauSigma(b)), Transpose(P))
PriorMean(b)  == IF b.kind = "market"     \* reverse optimisation of the market portfolio
                 THEN VScale(b.delta, MV(b.sigma, VScale(RDiv(1, RSum(b.x)), b.x)))
                 ELSE b.x

Posterior(b, vs, om) ==
  IF Len(vs) = 0 THEN [ok |-> TRUE, mu |-> PriorMean(b), cov |-> b.sigma]
  ELSE LET P  == PickMat(vs)
           ts == TauSigma(b)
           pi == PriorMean(b)
           inv == Inverse(MAdd(ViewCov(b, vs), om))
           K  == MM(MM(ts, Transpose(P)), inv)
       IN IF inv = <<>> THEN [ok |-> FALSE, mu |-> <<>>, cov |-> <<>>]
          ELSE [ok |-> TRUE,
                mu |-> VAdd(pi, MV(K, VSub(Targets(vs), MV(P, pi)))),
                cov |-> MSub(MAdd(b.sigma, ts), MM(K, MM(P, ts)))]

\* view uncertainty
Clip(c) == RMin(RMax(c, R(1, 1000000)), R(999999, 1000000))
Idzorek(b, vs, conf, usetau) ==
  Diag([k \in 1..Len(vs) |->
     LET c == Clip(conf[k]) IN RMul(RDiv(RSub(1, c), c), Quad(vs[k].p, IF usetau THEN TauSigma(b) ELSE b.sigma))])
DefaultOmega(b, vs) == Diag([k \in 1..Len(vs) |-> Quad(vs[k].p, TauSigma(b))])
OmegaOf(b, vs, o) == CASE o.kind = "none"    -> DefaultOmega(b, vs)
                       [] o.kind = "idzorek" -> Idzorek(b, vs, o.conf, o.usetau)
                       [] o.kind = "vec"     -> Diag(o.m)
                       [] o.kind = "mat"     -> o.m

\* learning one view with error variance s
Learn(m, M, p, q, s) ==
  LET Mp == MV(M, p) a == RAdd(RDot(p, Mp), s) IN
  [m |-> VAdd(m, VScale(RDiv(RSub(q, RDot(p, m)), a), Mp)),
   M |-> MSub(M, MScale(RDiv(1, a), Outer(Mp, Mp)))]
=============================================================================
