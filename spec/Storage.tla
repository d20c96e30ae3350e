------------------------------ MODULE Storage -------------------------------
(***************************************************************************)
(* How an array of numbers lies in memory: a buffer, an offset and a stride *)
(* per axis (C or Fortran order, gaps, reversed axes), or nested sequences. *)
(* What a function is asked depends on what can be read from the store and  *)
(* on nothing else.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

\* one or two axes; offsets and strides count elements
Index(s, i, j) == s.off + (i - 1) * s.strides[1] + (IF Len(s.shape) = 2 THEN (j - 1) * s.strides[2] ELSE 0) + 1
Width(s) == IF Len(s.shape) = 2 THEN s.shape[2] ELSE 1
\* the numbers a reader finds, row by row (a vector is read as rows of one)
ReadStrided(s) == [i \in 1..s.shape[1] |-> [j \in 1..Width(s) |-> s.buf[Index(s, i, j)]]]
ReadNested(s)  == s.rows
Read(s) == IF s.form = "strided" THEN ReadStrided(s) ELSE ReadNested(s)
InBounds(s) == s.form = "strided" => \A i \in 1..s.shape[1] : \A j \in 1..Width(s) : Index(s, i, j) \in 1..Len(s.buf)

\* the layouts of an m x n array with rows X
Flat(X, m, n) == [k \in 1..(m * n) |-> X[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
Turn(X, m, n) == [j \in 1..n |-> [i \in 1..m |-> X[i][j]]]
Strided(buf, off, st1, st2, m, n) == [form |-> "strided", buf |-> buf, off |-> off, strides |-> <<st1, st2>>, shape |-> <<m, n>>, rows |-> <<>>]
Kinds == {"C", "F", "gap", "rev", "nested"}
Lay(X, m, n, k) ==
  CASE k = "C"   -> Strided(Flat(X, m, n), 0, n, 1, m, n)
  []   k = "F"   -> Strided(Flat(Turn(X, m, n), n, m), 0, 1, m, m, n)
  []   k = "gap" -> Strided([i \in 1..(2 * m * n) |-> IF i % 2 = 1 THEN Flat(X, m, n)[(i + 1) \div 2] ELSE 0], 0, 2 * n, 2, m, n)
  []   k = "rev" -> Strided([i \in 1..(m * n) |-> Flat(X, m, n)[m * n + 1 - i]], m * n - 1, 0 - n, 0 - 1, m, n)
  []   OTHER     -> [form |-> "nested", buf |-> <<>>, off |-> 0, strides |-> <<0, 0>>, shape |-> <<m, n>>, rows |-> X]
=============================================================================
