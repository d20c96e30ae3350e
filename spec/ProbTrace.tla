------------------------------ MODULE ProbTrace ------------------------------
(* Conformance of probability generation, resolution and consumption.      *)
EXTENDS TraceBase, Prob

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError"}
Good(o, n) == o.k = "ok" /\ Proper(o.v, n)

JUniform(ev) ==
  IF ev.n < 1 THEN {<<"refuses-empty", Refused(ev.out)>>}
  ELSE {<<"generated-is-proper", Good(ev.out, ev.n)>>,
        <<"uniform-law", ev.out.k = "ok" => \A i \in 1..Len(ev.out.v) : RNear(ev.out.v[i], R(1, ev.n), RPow(R(1, 10), 15))>>}
JExp(ev) ==
  IF ev.n < 1 \/ ~RGt(ev.hl, 0) THEN {<<"refuses-bad-parameters", Refused(ev.out)>>}
  ELSE IF ~Good(ev.out, ev.n) THEN {<<"generated-is-proper", FALSE>>}
  ELSE {<<"half-life-law", ExpLaw(ev.out.v, ev.n, ev.hl)>>}
JKernel(ev) ==
  LET h == IF ev.h = "none" THEN (IF Len(ev.x) < 2 THEN "nan" ELSE Silverman(ev.x)) ELSE ev.h
      v == IF ev.vgiven THEN ev.v ELSE ev.x
      c == IF ev.c = "none" THEN ev.x[Len(ev.x)] ELSE ev.c
  IN IF ~RGt(h, R(1, 1000000)) THEN {<<"refuses-bad-parameters", Refused(ev.out)>>}
     ELSE IF ~Good(ev.out, Len(v)) THEN {<<"generated-is-proper", FALSE>>}
     ELSE {<<"inputs-unchanged", ev.same>>, <<"kernel-law", KernelLaw(ev.out.v, v, h, c, Tol10)>>,
           <<"kernel-order", KernelOrder(ev.out.v, v, c)>>}
JBand(ev) == {<<"silverman-law", ev.out.k = "ok" /\ RClose(ev.out.v[1], Silverman(ev.x), Tol10)>>}
JResolve(ev) ==
  LET ok == ev.m # <<"none">> /\ (IF ev.strict THEN StrictlyUsable(ev.m, ev.n) ELSE Usable(ev.m, ev.n)) IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.m = <<"none">> THEN
     (IF ev.n < 1 THEN {<<"refuses-empty", Refused(ev.out)>>}
      ELSE {<<"default-is-uniform", Good(ev.out, ev.n) /\ VNear(ev.out.v, Const(ev.n, R(1, ev.n)), Tol12)>>})
  ELSE IF ~ok THEN {<<"refuses-improper", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"resolves", FALSE>>}
  ELSE {<<"resolves", Resolved(ev.m, ev.out.v)>>, <<"idempotent", ev.again.k = "ok" /\ VNear(ev.again.v, ev.out.v, Tol12)>>}
JEns(ev) ==
  IF ev.ens.k # "ok" \/ ev.hhi.k # "ok" THEN {<<"effective-number-defined", FALSE>>}
  ELSE LET e == ev.ens.v[1] k == ev.hhi.v[1] n == Len(ev.p) t == RMul(Tol10, n) IN
  {<<"entropy-effective-number", RNear(e, Ens(ev.p), t)>>, <<"herfindahl-effective-number", RNear(k, Hhi(ev.p), t)>>,
   <<"effective-number-bounds", RLeT(1, k, t) /\ RLeT(k, e, t) /\ RLeT(e, n, t)>>, <<"inputs-unchanged", ev.same>>}
\* a consumer of supplied probabilities: improper masses refused; proportional masses give the same answer
JSupply(ev) ==
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~(IF ev.strict THEN StrictlyUsable(ev.m, ev.n) ELSE Usable(ev.m, ev.n)) THEN {<<"consumer-refuses-improper", Refused(ev.out)>>}
  ELSE IF ev.out.k # "ok" THEN {<<"consumer-accepts-or-wants-normalised", Refused(ev.out) /\ ~NearOne(ev.m)>>}
  ELSE IF ev.ref.k # "ok" THEN {<<"consumer-accepts-normalised", FALSE>>}
  ELSE {<<"consumer-uses-them-faithfully", VClose(ev.out.v, ev.ref.v, IF NearOne(ev.m) THEN Tol4 ELSE Tol8)>>,
        <<"consumer-default-is-uniform", ev.isuni => VClose(ev.out.v, ev.none.v, Tol8)>>}

TStart(init) == <<>>
TJudge(s, ev) == CASE ev.op = "uniform" -> JUniform(ev) [] ev.op = "exp" -> JExp(ev) [] ev.op = "kernel" -> JKernel(ev)
                   [] ev.op = "band" -> JBand(ev) [] ev.op = "resolve" -> JResolve(ev) [] ev.op = "ens" -> JEns(ev)
                   [] ev.op = "supply" -> JSupply(ev)
TAdvance(s, ev) == s
=============================================================================
