------------------------------ MODULE TailTrace ------------------------------
(* Conformance of the risk measures.  `risk` events carry scenarios,       *)
(* probabilities, weights and the returned numbers; the state remembers    *)
(* the values of each presentation class, because presenting the same      *)
(* distribution with scenarios merged, dropped or reordered, or under      *)
(* another type, must give the same value.                                 *)
EXTENDS TraceBase, TailRisk

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError"}

Probs(ev) == IF ev.p = "none" THEN Uniform(Len(ev.R))
             ELSE LET s == RSum(ev.pv) IN
                  IF RLe(RAbs(RSub(s, 1)), Tol4) THEN ev.pv        \* close to one: used as given
                  ELSE VScale(RDiv(1, s), ev.pv)
ProbsOk(ev) == ev.p = "none" \/ (/\ IsVec(ev.pv, Len(ev.R)) /\ \A i \in 1..Len(ev.pv) : RLe(0, ev.pv[i])
                                 /\ RGt(RSum(ev.pv), 0))
ConfOk(ev) == RNum(ev.conf) /\ RLt(0, ev.conf) /\ RLt(ev.conf, 1)
Ports(ev) == TLCEval([j \in 1..Len(ev.W) |-> ev.W[j]])       \* one weight vector per portfolio

X(ev, p, w) == Pnl(IF ev.demean THEN Demeaned(ev.R, p) ELSE ev.R, w)
Tol(ev) == IF ev.exact THEN 0 ELSE RMul(Tol10, ev.scale)
Eps(ev) == IF ev.exact THEN 0 ELSE Tol12

VarOk(ev, p, w, v) == LET x == X(ev, p, w) a == RSub(1, ev.conf) IN
  \E k \in QuantileIdx(x, p, a, Eps(ev)) : RNear(v, RNeg(x[k]), Tol(ev))
CvarOk(ev, p, w, v) == LET x == X(ev, p, w) a == RSub(1, ev.conf) IN
  RNear(v, CVaR(x, p, a), RMul(Tol10, RDiv(ev.scale, a)))

JudgeRisk(s, ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~ProbsOk(ev) \/ ~ConfOk(ev) \/ ev.junk THEN
     {<<"refuses-bad-arguments", Refused(ev.var) /\ Refused(ev.cvar)>>}
  ELSE IF ev.var.k # "ok" \/ ev.cvar.k # "ok" THEN {<<"accepted", FALSE>>}
  ELSE LET m == Len(ev.W) p == TLCEval(Probs(ev)) IN
  IF ~IsVec(ev.var.v, m) \/ ~IsVec(ev.cvar.v, m) THEN {<<"one-value-per-portfolio", FALSE>>}
  ELSE {<<"one-value-per-portfolio", (m = 1) => (ev.var.scalar /\ ev.cvar.scalar)>>,
        <<"var-is-the-quantile", \A j \in 1..m : VarOk(ev, p, ev.W[j], ev.var.v[j])>>,
        <<"cvar-is-the-tail-average", \A j \in 1..m : CvarOk(ev, p, ev.W[j], ev.cvar.v[j])>>,
        <<"cvar-at-least-var", \A j \in 1..m : RLeT(ev.var.v[j], ev.cvar.v[j], RMul(Tol10, ev.scale))>>}
       \cup (IF s.seen = <<>> \/ ev.class = "" \/ s.class # ev.class THEN {}
             ELSE {<<"presentation-does-not-matter", VNear(ev.cvar.v, s.seen[1], RMul(Tol8, ev.scale))
                                                     /\ (ev.exact => VEq(ev.var.v, s.seen[2]))>>})

JudgeVariance(ev) ==
  IF ev.out.k # "ok" \/ ev.vol.k # "ok" THEN {<<"variance-accepted", FALSE>>}
  ELSE LET m == Len(ev.W) IN
  IF ~IsVec(ev.out.v, m) \/ ~IsVec(ev.vol.v, m) THEN {<<"one-value-per-portfolio", FALSE>>}
  ELSE {<<"inputs-unchanged", ev.same>>,
        <<"variance-is-the-quadratic-form", \A j \in 1..m :
             RNear(ev.out.v[j], Quad(ev.W[j], ev.cov), IF ev.exact THEN 0 ELSE RMul(Tol10, ev.scale))>>,
        <<"volatility-is-its-root", \A j \in 1..m :
             RNear(ev.vol.v[j], RSqrt(Quad(ev.W[j], ev.cov)), RMul(Tol7, RMax(1, ev.scale)))>>}

TStart(init) == [class |-> "", seen |-> <<>>]
TJudge(s, ev) == IF ev.op = "risk" THEN JudgeRisk(s, ev) ELSE JudgeVariance(ev)
TAdvance(s, ev) == IF ev.op = "risk" /\ ev.var.k = "ok" /\ ev.cvar.k = "ok" /\ (s.class # ev.class \/ s.seen = <<>>)
                   THEN [class |-> ev.class, seen |-> <<ev.cvar.v, ev.var.v>>] ELSE s
=============================================================================
