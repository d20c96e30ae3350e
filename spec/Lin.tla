-------------------------------- MODULE Lin --------------------------------
(* Vectors and matrices over the rationals of Rat.tla, as sequences.       *)
EXTENDS Rat, Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC    \* TLCEval: evaluate eagerly, TLC functions are lazy otherwise

Vec(n, f(_))    == TLCEval([i \in 1..n |-> f(i)])
Const(n, c)     == TLCEval([i \in 1..n |-> c])
VAdd(u, v)      == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v)      == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VScale(k, v)    == TLCEval([i \in 1..Len(v) |-> RMul(k, v[i])])
MV(M, v)        == TLCEval([i \in 1..Len(M) |-> RDot(M[i], v)])
Col(M, j)       == TLCEval([i \in 1..Len(M) |-> M[i][j]])
Transpose(M)    == TLCEval([j \in 1..Len(M[1]) |-> Col(M, j)])
MM(A, B)        == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> RDot(A[i], Col(B, j))]])
MAdd(A, B)      == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B)      == TLCEval([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(k, A)    == TLCEval([i \in 1..Len(A) |-> VScale(k, A[i])])
Outer(u, v)     == TLCEval([i \in 1..Len(u) |-> VScale(u[i], v)])
Quad(v, M)      == RDot(v, MV(M, v))
Unit(n, i)      == TLCEval([j \in 1..n |-> IF j = i THEN 1 ELSE 0])
Ident(n)        == TLCEval([i \in 1..n |-> Unit(n, i)])
Diag(v)         == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]])

IsVec(v, n)     == /\ Len(v) = n /\ \A i \in 1..n : RNum(v[i])
IsMat(M, n, m)  == /\ Len(M) = n /\ \A i \in 1..n : IsVec(M[i], m)
Symmetric(M)    == \A i, j \in 1..Len(M) : REq(M[i][j], M[j][i])
VNear(u, v, t)  == /\ Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], t)
VClose(u, v, t) == /\ Len(u) = Len(v) /\ \A i \in 1..Len(u) : RClose(u[i], v[i], t)
MClose(A, B, t) == /\ Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], t)
VEq(u, v)       == /\ Len(u) = Len(v) /\ \A i \in 1..Len(u) : REq(u[i], v[i])
MEq(A, B)       == /\ Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
RECURSIVE VMaxR(_, _)
VMaxR(v, k)     == IF k = 1 THEN v[1] ELSE RMax(v[k], VMaxR(v, k - 1))
VMax(v)         == VMaxR(v, Len(v))
VMin(v)         == RNeg(VMax([i \in 1..Len(v) |-> RNeg(v[i])]))
VAbsSum(v)      == RSum([i \in 1..Len(v) |-> RAbs(v[i])])

(* Solve A x = b (A square) by Gauss-Jordan elimination with row search;   *)
(* <<>> when A is singular.  Rows carry the right-hand side as last entry. *)
RECURSIVE GJ(_, _, _)
GJ(M, n, c) ==
  IF c > n THEN [i \in 1..n |-> M[i][Len(M[i])]]
  ELSE LET piv == {r \in c..n : ~RZero(M[r][c])} IN
       IF piv = {} THEN <<>>
       ELSE LET p  == CHOOSE r \in piv : \A s \in piv : r <= s
                sw == [i \in 1..n |-> IF i = c THEN M[p] ELSE IF i = p THEN M[c] ELSE M[i]]
                pr == VScale(RDiv(1, sw[c][c]), sw[c])
                nx == TLCEval([i \in 1..n |-> IF i = c THEN pr
                                      ELSE IF RZero(sw[i][c]) THEN sw[i]
                                      ELSE VSub(sw[i], VScale(sw[i][c], pr))])
            IN  GJ(nx, n, c + 1)
Solve(A, b) == IF Len(A) = 0 THEN <<>> ELSE GJ([i \in 1..Len(A) |-> Append(A[i], b[i])], Len(A), 1)
Inverse(A)  == LET n == Len(A)
                   cols == [j \in 1..n |-> Solve(A, Unit(n, j))]
               IN  IF \E j \in 1..n : cols[j] = <<>> THEN <<>> ELSE Transpose(cols)

(* Positive semidefiniteness of a symmetric rational matrix, up to an      *)
(* eigenvalue tolerance t: LDL' with M + t I (t > 0 makes it strict).      *)
RECURSIVE PDRec(_, _, _)
PDRec(M, n, c) ==
  IF c > n THEN TRUE
  ELSE IF ~RGt(M[c][c], 0) THEN FALSE
  ELSE LET nx == TLCEval([i \in 1..n |-> IF i <= c THEN M[i]
                    ELSE VSub(M[i], VScale(RDiv(M[i][c], M[c][c]), M[c]))])
       IN  PDRec(nx, n, c + 1)
IsPD(M)     == PDRec(M, Len(M), 1)
IsPSD(M, t) == IsPD(MAdd(M, MScale(t, Ident(Len(M)))))
=============================================================================
