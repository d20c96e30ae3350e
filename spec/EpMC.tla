------------------------------- MODULE EpMC -------------------------------
(* A belief over S scenarios absorbs views on the probability of events.    *)
(* Such views have a closed-form answer (scale inside and outside the       *)
(* event), which is checked against every distribution on a lattice, and    *)
(* the certificate Gap is checked to be sound on right and wrong answers.   *)
EXTENDS Ep, CSV, IOUtils, Json

CONSTANTS S, Den, MaxViews, TDen

VARIABLES prior, belief, log, ph
vars == <<prior, belief, log, ph>>

Lat == {w \in [1..S -> 1..Den] : LET RECURSIVE Sm(_) Sm(k) == IF k = 0 THEN 0 ELSE w[k] + Sm(k - 1) IN Sm(S) = Den}
Pr(w) == TLCEval([t \in 1..S |-> R(w[t], Den)])
Grid == TLCEval({Pr(w) : w \in Lat})
Events == {e \in SUBSET (1..S) : e # {} /\ e # 1..S /\ 1 \in e}
PrOf(b, e) == RSum([t \in 1..S |-> IF t \in e THEN b[t] ELSE 0])
Ind(e) == TLCEval([t \in 1..S |-> IF t \in e THEN 1 ELSE 0])
View(e, op, k) == CASE op = "==" -> [op |-> "eq", row |-> Ind(e), rhs |-> R(k, TDen)]
                    [] op = "<=" -> [op |-> "le", row |-> Ind(e), rhs |-> R(k, TDen)]
                    [] op = ">=" -> [op |-> "le", row |-> VScale(-1, Ind(e)), rhs |-> RNeg(R(k, TDen))]
\* scale the event to the target when the view does not hold already
Answer(b, e, op, k) ==
  LET pe == PrOf(b, e) tg == R(k, TDen) IN
  IF Met(View(e, op, k), b, 0) THEN b
  ELSE TLCEval([t \in 1..S |-> IF t \in e THEN RMul(b[t], RDiv(tg, pe)) ELSE RMul(b[t], RDiv(RSub(1, tg), RSub(1, pe)))])
Mult(b, e, op, k) ==
  LET pe == PrOf(b, e) tg == R(k, TDen)
      y == RSub(RLn(RDiv(RSub(1, tg), RSub(1, pe))), RLn(RDiv(tg, pe))) IN
  IF Met(View(e, op, k), b, 0) THEN [y |-> 0, c |-> 0]
  ELSE [y |-> IF op = ">=" THEN RNeg(y) ELSE y, c |-> RLn(RDiv(RSub(1, tg), RSub(1, pe)))]

Init == /\ prior \in Grid /\ belief = prior /\ log = <<>> /\ ph = "run"
Impose == /\ ph = "run" /\ Len(log) < MaxViews
          /\ \E e \in Events, op \in {"==", "<=", ">="}, k \in 1..TDen - 1 :
               /\ belief' = Answer(belief, e, op, k)
               /\ log' = Append(log, [e |-> e, op |-> op, k |-> k, from |-> belief, to |-> Answer(belief, e, op, k)])
          /\ UNCHANGED <<prior, ph>>
Close == /\ ph = "run" /\ log # <<>> /\ ph' = "closed" /\ UNCHANGED <<prior, belief, log>>
         /\ CSVWrite("%1$s", <<ToJson([prior |-> prior, log |-> [j \in 1..Len(log) |->
               [e |-> [t \in 1..S |-> IF t \in log[j].e THEN 1 ELSE 0], op |-> log[j].op, t |-> R(log[j].k, TDen),
                from |-> log[j].from, to |-> log[j].to]]])>>, IOEnv.VEMIT)
Next == Impose \/ Close

Last == log[Len(log)]
IsDist    == Proper(belief, S) /\ Strict(belief)
Meets     == log # <<>> => Met(View(Last.e, Last.op, Last.k), belief, 0)
Stable    == log # <<>> => VEq(Answer(belief, Last.e, Last.op, Last.k), belief)
Closest   == (log # <<>> /\ ph = "run") => \A r \in Grid : Met(View(Last.e, Last.op, Last.k), r, 0) =>
                 RLeT(KL(Last.to, Last.from), KL(r, Last.from), Tol12)
Certified == (log # <<>> /\ ph = "run") => LET m == Mult(Last.from, Last.e, Last.op, Last.k) cs == << View(Last.e, Last.op, Last.k) >> IN
                 RLe(Gap(Last.to, Last.from, cs, <<m.y>>, m.c), Tol12) /\ Signs(cs, <<m.y>>)
\* soundness of the certificate, whatever answer and multiplier it is shown
GapSound  == (Len(log) = 1 /\ ph = "run") => LET cs == << View(Last.e, Last.op, Last.k) >> IN
                 \A q \in Grid, y \in {R(0, 1), R(1, 1), R(1, 2)} : \A r \in Grid :
                     Met(cs[1], r, 0) => RLeT(RSub(KL(q, Last.from), KL(r, Last.from)), Gap(q, Last.from, cs, <<y>>, 0), Tol12)
=============================================================================
