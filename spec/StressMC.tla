------------------------------ MODULE StressMC ------------------------------
(* A book of one portfolio on a small market, stressed step by step: cash   *)
(* shifts, scalings, asset reorderings, reweightings of the scenarios.      *)
EXTENDS Book, CSV, IOUtils, Json

CONSTANTS Rows, Depth

VARIABLES Rm, p, w, base, shift, k, n, nom
vars == <<Rm, p, w, base, shift, k, n, nom>>

Q(i) == R(i, 8)
RowSets == << << <<Q(1), Q(-1)>>, <<Q(-2), Q(3)>> >>, << <<Q(2), Q(0)>>, <<Q(2), Q(0)>>, <<Q(-4), Q(1)>> >>,
             << <<Q(1), Q(1)>>, <<Q(-3), Q(-3)>>, <<Q(4), Q(-2)>> >> >>
MassesOf(T) == IF T = 2 THEN { <<R(1, 2), R(1, 2)>>, <<R(3, 4), R(1, 4)>>, <<R(0, 1), R(1, 1)>> }
               ELSE { <<R(1, 4), R(1, 4), R(1, 2)>>, <<R(1, 8), R(0, 1), R(7, 8)>>, <<R(1, 3), R(1, 3), R(1, 3)>> }
Books == { <<R(1, 2), R(1, 2)>>, <<R(2, 1), R(-1, 1)>>, <<R(0, 1), R(1, 1)>> }
A == R(1, 4)
Fig(r, m, v) == LET X == Pnl(r, v) IN [mean |-> Mean(X, m), var2 |-> Var2(X, m), q |-> VaR(X, m, A), es |-> CVaR(X, m, A)]

Init == /\ n = 0 /\ shift = R(0, 1) /\ k = R(1, 1)
        /\ \E i \in Rows : Rm = RowSets[i]
        /\ p \in MassesOf(Len(Rm)) /\ nom = p /\ w \in Books
        /\ base = Fig(Rm, p, w)
Same == UNCHANGED <<nom>>
Shift(c) == /\ Rm' = Stressed(Rm, <<>>, <<>>, c)
            /\ shift' = RAdd(shift, RDot(w, c)) /\ UNCHANGED <<p, w, base, k>> /\ Same
Grow(x)  == /\ Rm' = Stressed(Rm, <<>>, <<x>>, <<>>)
            /\ shift' = RMul(shift, x) /\ k' = RMul(k, x) /\ UNCHANGED <<p, w, base>> /\ Same
Swap     == /\ Rm' = Stressed(Rm, << <<R(0, 1), R(1, 1)>>, <<R(1, 1), R(0, 1)>> >>, <<>>, <<>>)
            /\ w' = <<w[2], w[1]>> /\ UNCHANGED <<p, base, shift, k>> /\ Same
Reweigh  == \E m \in MassesOf(Len(Rm)) :
            /\ \A i \in 1..Len(m) : RZero(nom[i]) => RZero(m[i])
            /\ p' = m /\ base' = Fig(Rm, m, w) /\ shift' = R(0, 1) /\ k' = R(1, 1) /\ UNCHANGED <<Rm, w>> /\ Same
Step == /\ n >= 0 /\ n < Depth /\ n' = n + 1
        /\ \/ \E c \in { <<Q(1), Q(-2)>>, <<Q(2), Q(2)>> } : Shift(c)
           \/ \E x \in {R(3, 2), R(2, 1)} : Grow(x)
           \/ Swap
           \/ Reweigh
Ask  == /\ n >= 0
        /\ CSVWrite("%1$s", <<ToJson([Rm |-> Rm, nom |-> nom, p |-> p, w |-> w])>>, IOEnv.VEMIT)
        /\ n' = -1 /\ UNCHANGED <<Rm, p, w, base, shift, k, nom>>
Next == Step \/ Ask

Now == Fig(Rm, p, w)
\* a cash shift moves the return and the tail figures, never the dispersion; scaling scales; order is irrelevant
MeanMoves == REq(Now.mean, RAdd(RMul(k, base.mean), shift))
SpreadStays == REq(Now.var2, RMul(RSq(k), base.var2))
TailMoves == REq(Now.q, RSub(RMul(k, base.q), shift)) /\ REq(Now.es, RSub(RMul(k, base.es), shift))
TailOrder == RLe(Now.q, Now.es) /\ RLe(RNeg(Now.mean), Now.es)
EntropyOk == /\ RGe(KL(p, nom), RNeg(Tol12)) /\ (VEq(p, nom) => RNear(KL(p, nom), 0, Tol12))
             /\ (~VEq(p, nom) => RGt(KL(p, nom), Tol6))
EnsRange  == RLeT(1, Ens(p), Tol12) /\ RLeT(Ens(p), Len(p), Tol12)
\* averaging books never adds tail risk
Diversify == \A v \in Books : RLe(Fig(Rm, p, VScale(R(1, 2), VAdd(v, w))).es, RMul(R(1, 2), RAdd(Fig(Rm, p, v).es, Now.es)))
=============================================================================
