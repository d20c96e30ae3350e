---------------------------- MODULE FeasibleTrace ----------------------------
(* Conformance of the constraint builder: every `build` event carries a    *)
(* declaration and the matrices the library made of it.                    *)
EXTENDS TraceBase, Feasible

RowSys(M, v) == TLCEval([k \in 1..Len(M) |-> <<M[k], v[k]>>])
\* scale a row so that its first nonzero coefficient has modulus one
RECURSIVE FirstNZ(_, _)
FirstNZ(a, i) == IF i > Len(a) THEN 0 ELSE IF RZero(a[i]) THEN FirstNZ(a, i + 1) ELSE i
Canon(r, eq) ==
  LET i == FirstNZ(r[1], 1)
      k == RDiv(1, IF eq THEN r[1][i] ELSE RAbs(r[1][i]))
  IN IF i = 0 THEN r ELSE <<VScale(k, r[1]), RMul(k, r[2])>>
SameRow(r, s) == VEq(r[1], s[1]) /\ REq(r[2], s[2])
Covers(A, B, eq) == \A i \in 1..Len(A) :
  \/ FirstNZ(A[i][1], 1) = 0 /\ (IF eq THEN RZero(A[i][2]) ELSE RLe(0, A[i][2]))
  \/ \E j \in 1..Len(B) : SameRow(Canon(A[i], eq), Canon(B[j], eq))
SameRows(A, B, eq) == Covers(A, B, eq) /\ Covers(B, A, eq)

\* Different rows may still describe the same region: compare on a lattice
\* and at, just inside and just outside every face seen from every lattice point.
Grid(n) == [1..n -> {R(-1, 2), R(0, 1), R(1, 4), R(1, 2), R(1, 1)}]
Faces(A, B) == {A[i] : i \in 1..Len(A)} \cup {B[i] : i \in 1..Len(B)}
Move(w, r, i, off) == [w EXCEPT ![i] = RAdd(RAdd(w[i], RDiv(RSub(r[2], RDot(r[1], w)), r[1][i])), off)]
Probes(n, fs) == Grid(n) \cup UNION { {Move(w, r, i, o) : o \in {R(0, 1), R(1, 1024), R(-1, 1024)}}
                                     : w \in Grid(n), r \in {x \in fs : ~RZero(x[1][1])}, i \in {1} }
                        \cup UNION { {Move(w, r, i, o) : o \in {R(0, 1), R(1, 1024), R(-1, 1024)}}
                                     : w \in Grid(n), r \in {x \in fs : ~RZero(x[1][n])}, i \in {n} }
SameIneq(d, hs, G) == SameRows(hs, G, FALSE)
   \/ (d.n <= 3 /\ \A w \in Probes(d.n, Faces(hs, G)) : AdmitsIneq(d, w) <=> Below(G, w))
SameEq(d, hp, A) == SameRows(hp, A, TRUE)
   \/ (d.n <= 3 /\ \A w \in Probes(d.n, Faces(hp, A)) : AdmitsEq(d, w) <=> OnAll(A, w))

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "TypeError", "LookupError"}
ShapeOk(d, o) == /\ Len(o.G) = Len(o.h) /\ Len(o.A) = Len(o.b)
                 /\ \A k \in 1..Len(o.G) : IsVec(o.G[k], d.n) /\ RNum(o.h[k])
                 /\ \A k \in 1..Len(o.A) : IsVec(o.A[k], d.n) /\ RNum(o.b[k])

JudgeBuild(ev) == LET d == ev.d o == ev.out IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~WellFormed(d) \/ ev.junk THEN {<<"refuses-malformed", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"accepts-wellformed", FALSE>>}
  ELSE IF ~ShapeOk(d, o) THEN {<<"shape", FALSE>>}
  ELSE LET hs == Halfspaces(d) hp == Hyperplanes(d) IN
       {<<"inequalities-are-the-region", SameIneq(d, hs, RowSys(o.G, o.h))>>,
        <<"equalities-are-the-region", SameEq(d, hp, RowSys(o.A, o.b))>>,
        <<"absence-marked", (o.gnone => Len(o.G) = 0) /\ (o.anone => Len(o.A) = 0)
                            /\ (ev.none => (Len(hs) = 0 => o.gnone) /\ (Len(hp) = 0 => o.anone))>>}

TStart(init) == <<>>
TJudge(s, ev) == JudgeBuild(ev)
TAdvance(s, ev) == s
=============================================================================
