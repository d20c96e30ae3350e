------------------------------ MODULE OptimMC ------------------------------
(* A user declares restrictions and costs and then asks an optimiser for a  *)
(* portfolio.  In every reachable problem the bound of weak duality holds   *)
(* for every witness and every admissible lattice portfolio, restrictions   *)
(* and targets never improve the optimum, and the parity gap vanishes       *)
(* exactly at the portfolios whose risk contributions meet the budgets.     *)
EXTENDS Optim, CSV, IOUtils, Json

CONSTANTS Ns, Depth

Sym(n, v, c) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN v[i] ELSE c[IF i < j THEN <<i, j>> ELSE <<j, i>>]])])
Data == { x \in {
  [n |-> 2, mu |-> <<R(1, 16), R(1, 8)>>, S |-> <<<<R(1, 16), R(1, 32)>>, <<R(1, 32), R(1, 4)>>>>,
   sc |-> <<<<R(1, 4), R(-1, 2)>>, <<R(-1, 4), R(1, 2)>>, <<R(1, 8), R(1, 4)>>>>, p |-> <<R(1, 2), R(1, 4), R(1, 4)>>, al |-> R(3, 8),
   b |-> <<R(1, 4), R(3, 4)>>],
  [n |-> 3, mu |-> <<R(1, 8), R(-1, 16), R(1, 16)>>,
   S |-> <<<<R(1, 4), R(1, 16), R(-1, 16)>>, <<R(1, 16), R(1, 8), R(1, 32)>>, <<R(-1, 16), R(1, 32), R(1, 16)>>>>,
   sc |-> <<<<R(1, 2), R(-1, 4), R(1, 8)>>, <<R(-1, 2), R(1, 4), R(0, 1)>>, <<R(1, 4), R(1, 8), R(-1, 8)>>, <<R(-1, 8), R(-1, 8), R(1, 4)>>>>,
   p |-> <<R(1, 8), R(3, 8), R(1, 4), R(1, 4)>>, al |-> R(1, 4), b |-> <<R(1, 2), R(1, 4), R(1, 4)>>] } : x.n \in Ns }

Blank(n) == [n |-> n, long |-> TRUE, total |-> R(1, 1), bounds |-> [kind |-> "none", e |-> <<>>],
             rel |-> <<>>, groups |-> <<>>, gh |-> <<>>, ab |-> <<>>]
W0(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN R(1, 2) ELSE RDiv(R(1, 2), n - 1)])
Terms(g, kind, cost) ==
  LET n == g.n IN
  CASE kind = "mv"     -> <<[t |-> "quad", M |-> g.S]>>
                          \o (IF cost THEN <<[t |-> "qcost", l |-> Const(n, R(1, 8)), w0 |-> W0(n)]>> ELSE <<>>)
    [] kind = "cvar"   -> <<[t |-> "cvar", R |-> g.sc, p |-> g.p, al |-> g.al]>>
                          \o (IF cost THEN <<[t |-> "pcost", c |-> Const(n, R(1, 16)), w0 |-> W0(n)]>> ELSE <<>>)
    [] kind = "robust" -> <<[t |-> "lin", a |-> VScale(-1, g.mu)], [t |-> "norm", k |-> R(1, 2), S |-> g.S]>>
                          \o (IF cost THEN <<[t |-> "pcost", c |-> Const(n, R(1, 16)), w0 |-> W0(n)]>> ELSE <<>>)
    [] kind = "rrp"    -> <<[t |-> "gap", S |-> g.S, lam |-> IF cost THEN R(1, 4) ELSE R(0, 1), b |-> IF cost THEN Const(n, R(1, n)) ELSE g.b]>>
Prob(g, d, kind, cost) == [d |-> d, obj |-> Terms(g, kind, cost), cap |-> <<>>, rad |-> 2]

VARIABLES g, d, cost, ask, left
vars == <<g, d, cost, ask, left>>
None == [kind |-> "none", tau |-> "none"]
Init == /\ g \in Data /\ d = Blank(g.n) /\ cost = FALSE /\ ask = None /\ left = Depth
Set(x) == d' = x /\ left' = left - 1 /\ UNCHANGED <<g, cost, ask>>
Open == ask = None /\ left > 0
CapAll  == Open /\ d.bounds.kind = "none" /\ \E u \in {R(1, 2), R(5, 8)} :
              Set([d EXCEPT !.bounds = [kind |-> "pair", e |-> <<<<R(0, 1), u>>>>]])
Floor   == Open /\ d.bounds.kind = "none" /\ \E i \in 1..g.n : Set([d EXCEPT !.bounds = [kind |-> "map", e |-> <<<<i, R(1, 4), "none">>>>]])
Group   == Open /\ d.groups = <<>> /\ \E q \in {<<R(1, 4), R(1, 2)>>, <<R(0, 1), R(3, 8)>>} :
              Set([d EXCEPT !.groups = <<<<<<1, g.n>>, q[1], q[2]>>>>])
Relate  == Open /\ d.rel = <<>> /\ Set([d EXCEPT !.rel = <<<<g.n, 1, R(-1, 8)>>>>])
Row     == Open /\ d.gh = <<>> /\ Set([d EXCEPT !.gh = <<<<[i \in 1..g.n |-> 2 - i], R(-1, 8)>>>>])
Tilt    == Open /\ d.ab = <<>> /\ Set([d EXCEPT !.ab = <<<<[i \in 1..g.n |-> IF i = 1 THEN 1 ELSE IF i = 2 THEN -1 ELSE 0], R(1, 8)>>>>])
Charge  == Open /\ ~cost /\ cost' = TRUE /\ left' = left - 1 /\ UNCHANGED <<g, d, ask>>
Ask     == /\ ask = None /\ \E k \in {"mv", "cvar", "robust", "rrp"}, t \in {"none", R(1, 16), R(3, 32)} :
                /\ k \in {"mv", "cvar"} \/ t = "none"
                /\ ask' = [kind |-> k, tau |-> t]
           /\ UNCHANGED <<g, d, cost, left>>
Next == CapAll \/ Floor \/ Group \/ Relate \/ Row \/ Tilt \/ Charge \/ Ask

Emit == ask # None => CSVWrite("%1$s", <<ToJson([n |-> g.n, mu |-> g.mu, S |-> g.S, sc |-> g.sc, p |-> g.p, al |-> g.al, b |-> g.b, d |-> d,
                                                cost |-> cost, ask |-> ask, w0 |-> W0(g.n)])>>, IOEnv.VEMIT)

Points(n) == Lattice(n, 8, 0, 8, 8)
Admissible(dd, mu, tau) == LET hs == Halfspaces(dd) hp == Hyperplanes(dd) IN
  {v \in Points(dd.n) : Below(hs, v) /\ OnAll(hp, v) /\ (tau = "none" \/ RLe(tau, RDot(mu, v)))}
Rows == Halfspaces(d) \o (IF ask.tau = "none" THEN <<>> ELSE <<Target(g.mu, ask.tau)>>)
\* canned witnesses: wherever the tangent point and whatever the multipliers
WitTerm(t, u) ==
  CASE t.t = "cvar"  -> [u |-> u, q |-> LET k == CHOOSE k \in 1..Len(t.p) : TRUE IN t.p]
    [] t.t = "pcost" -> [u |-> u, s |-> TLCEval([i \in 1..Len(u) |-> IF RLt(u[i], R(1, 4)) THEN RNeg(t.c[i]) ELSE RDiv(t.c[i], 2)])]
    [] t.t = "gap"   -> [u |-> u, th |-> TLCEval([i \in 1..Len(u) |-> RDiv(1, Len(u))]), k |-> TLCEval([i \in 1..Len(u) |-> RAdd(R(1, 8), u[i])])]
    [] OTHER -> [u |-> u]
Wits(obj, hs, hp, n) ==
  { [ts |-> TLCEval([k \in 1..Len(obj) |-> WitTerm(obj[k], u)]), lam |-> lam, nu |-> nu, eta |-> 0, cu |-> <<>>] :
      u \in {W0(n), VScale(R(1, 1), Unit(n, n))},
      lam \in {TLCEval([k \in 1..Len(hs) |-> IF k = i THEN R(1, 4) ELSE R(0, 1)]) : i \in {1, Len(hs)}},
      nu \in {Const(Len(hp), R(k, 8)) : k \in {-1, 0, 1}} }
WeakDuality == ask # None =>
  LET P == Prob(g, d, ask.kind, cost) hs == Rows hp == Hyperplanes(d)
      vals == {Value(P.obj, v) : v \in Admissible(d, g.mu, ask.tau)}
  IN  \A w \in Wits(P.obj, hs, hp, g.n) : LET lb == LowerBound(P, hs, hp, w) IN
        /\ RNum(lb) /\ \A x \in vals : RLe(RSub(lb, Tol12), x)
NoFalseFarkas == ask # None /\ Admissible(d, g.mu, ask.tau) # {} =>
  LET P == Prob(g, d, ask.kind, cost) hs == Rows hp == Hyperplanes(d)
  IN  \A w \in Wits(P.obj, hs, hp, g.n) : RLe(Farkas(P, hs, hp, w), 0)
OnlyShrinks == [][d' # d => Admissible(d', g.mu, "none") \subseteq Admissible(d, g.mu, "none")]_vars
\* the gap is zero exactly where contributions meet the budgets
GapLaw == ask.kind = "rrp" /\ ~cost => \A v \in Points(g.n) :
  LET c == Contrib(v, g.S) tot == RSum(c) gp == ParityGap(v, g.S, 0, g.b) IN
  (\A i \in 1..g.n : RLe(0, c[i])) => /\ RLe(RNeg(Tol12), gp)
     /\ (RLe(gp, Tol12) <=> \A i \in 1..g.n : RNear(c[i], RMul(g.b[i], tot), Tol10))
=============================================================================
