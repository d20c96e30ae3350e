------------------------------ MODULE Feasible ------------------------------
(***************************************************************************)
(* Declared constraints as a region of portfolio space.  A declaration is  *)
(* a record; "none" marks what is absent.                                  *)
(*   n      number of assets            long   TRUE / FALSE                *)
(*   total  budget or "none"            bounds [kind, e] with kind one of  *)
(*          none, pair (e = <<<<lo, hi>>>>), list (e = <<<<lo,hi>>, ...>>),*)
(*          map (e = <<<<asset, lo, hi>>, ...>>)                           *)
(*   rel    <<i, j, k>> : w_i - w_j <= k                                   *)
(*   groups <<members, lo, hi>>         gh / ab  <<row, rhs>>              *)
(* Asset numbers are 1-based here.                                         *)
(***************************************************************************)
EXTENDS Lin, TLC

Given(x) == x # "none"

\* ---- what the words mean: does the declaration admit portfolio w? ---------
In(w, lo, hi) == (Given(lo) => RLe(lo, w)) /\ (Given(hi) => RLe(w, hi))
SumOver(w, S) == RSum([i \in 1..Len(w) |-> IF i \in S THEN w[i] ELSE 0])
Members(g)    == {g[1][k] : k \in 1..Len(g[1])}

AdmitsIneq(d, w) ==
  /\ d.long => \A i \in 1..d.n : RLe(0, w[i])
  /\ CASE d.bounds.kind = "pair" -> \A i \in 1..d.n : In(w[i], d.bounds.e[1][1], d.bounds.e[1][2])
       [] d.bounds.kind = "list" -> \A i \in 1..d.n : In(w[i], d.bounds.e[i][1], d.bounds.e[i][2])
       [] d.bounds.kind = "map"  -> \A k \in 1..Len(d.bounds.e) :
                                       In(w[d.bounds.e[k][1]], d.bounds.e[k][2], d.bounds.e[k][3])
       [] OTHER -> TRUE
  /\ \A k \in 1..Len(d.rel) : RLe(RSub(w[d.rel[k][1]], w[d.rel[k][2]]), d.rel[k][3])
  /\ \A k \in 1..Len(d.groups) : In(SumOver(w, Members(d.groups[k])), d.groups[k][2], d.groups[k][3])
  /\ \A k \in 1..Len(d.gh) : RLe(RDot(d.gh[k][1], w), d.gh[k][2])
AdmitsEq(d, w) ==
  /\ Given(d.total) => REq(RSum(w), d.total)
  /\ \A k \in 1..Len(d.ab) : REq(RDot(d.ab[k][1], w), d.ab[k][2])
Admits(d, w) == AdmitsIneq(d, w) /\ AdmitsEq(d, w)

\* ---- the same region as half-spaces <<a, b>> : a.w <= b -------------------
Lower(d, i, lo) == IF Given(lo) THEN <<<<VScale(-1, Unit(d.n, i)), RNeg(lo)>>>> ELSE <<>>
Upper(d, i, hi) == IF Given(hi) THEN <<<<Unit(d.n, i), hi>>>> ELSE <<>>
Box(d, i, lo, hi) == Lower(d, i, lo) \o Upper(d, i, hi)
Indicator(d, S, c) == TLCEval([i \in 1..d.n |-> IF i \in S THEN c ELSE 0])
RECURSIVE Cat(_, _, _)
Cat(f(_), k, n) == IF k > n THEN <<>> ELSE f(k) \o Cat(f, k + 1, n)

Halfspaces(d) == TLCEval(
  (IF d.long THEN Cat(LAMBDA i : Lower(d, i, "0"), 1, d.n) ELSE <<>>)
  \o (CASE d.bounds.kind = "pair" -> Cat(LAMBDA i : Box(d, i, d.bounds.e[1][1], d.bounds.e[1][2]), 1, d.n)
        [] d.bounds.kind = "list" -> Cat(LAMBDA i : Box(d, i, d.bounds.e[i][1], d.bounds.e[i][2]), 1, d.n)
        [] d.bounds.kind = "map"  -> Cat(LAMBDA k : Box(d, d.bounds.e[k][1], d.bounds.e[k][2], d.bounds.e[k][3]),
                                         1, Len(d.bounds.e))
        [] OTHER -> <<>>)
  \o [k \in 1..Len(d.rel) |-> <<VSub(Unit(d.n, d.rel[k][1]), Unit(d.n, d.rel[k][2])), d.rel[k][3]>>]
  \o Cat(LAMBDA k : <<<<Indicator(d, Members(d.groups[k]), 1), d.groups[k][3]>>,
                      <<Indicator(d, Members(d.groups[k]), -1), RNeg(d.groups[k][2])>>>>, 1, Len(d.groups))
  \o [k \in 1..Len(d.gh) |-> <<d.gh[k][1], d.gh[k][2]>>])
Hyperplanes(d) == TLCEval((IF Given(d.total) THEN <<<<Const(d.n, 1), d.total>>>> ELSE <<>>)
                          \o [k \in 1..Len(d.ab) |-> <<d.ab[k][1], d.ab[k][2]>>])

Below(hs, w)  == \A k \in 1..Len(hs) : RLe(RDot(hs[k][1], w), hs[k][2])
OnAll(hp, w)  == \A k \in 1..Len(hp) : REq(RDot(hp[k][1], w), hp[k][2])
\* violation of a system by w, as the largest excess
Excess(hs, hp, w) ==
  LET a == [k \in 1..Len(hs) |-> RSub(RDot(hs[k][1], w), hs[k][2])]
      b == [k \in 1..Len(hp) |-> RAbs(RSub(RDot(hp[k][1], w), hp[k][2]))]
      all == a \o b
  IN IF all = <<>> THEN 0 ELSE RMax(0, VMax(all))

\* ---- declarations that must be refused ------------------------------------
NumOrNone(x) == x = "none" \/ RNum(x)
PairOk(lo, hi) == NumOrNone(lo) /\ NumOrNone(hi) /\ ((Given(lo) /\ Given(hi)) => RLe(lo, hi))
InRange(d, i) == i \in 1..d.n
RowOk(d, r) == IsVec(r[1], d.n) /\ RNum(r[2])
WellFormed(d) ==
  /\ d.n > 0
  /\ NumOrNone(d.total)
  /\ CASE d.bounds.kind = "pair" -> Len(d.bounds.e[1]) = 2 /\ PairOk(d.bounds.e[1][1], d.bounds.e[1][2])
       [] d.bounds.kind = "list" -> Len(d.bounds.e) = d.n
                                    /\ \A i \in 1..d.n : Len(d.bounds.e[i]) = 2 /\ PairOk(d.bounds.e[i][1], d.bounds.e[i][2])
       [] d.bounds.kind = "map"  -> \A k \in 1..Len(d.bounds.e) :
                                      Len(d.bounds.e[k]) = 3 /\ InRange(d, d.bounds.e[k][1])
                                      /\ PairOk(d.bounds.e[k][2], d.bounds.e[k][3])
       [] OTHER -> TRUE
  /\ \A k \in 1..Len(d.rel) : Len(d.rel[k]) = 3 /\ InRange(d, d.rel[k][1]) /\ InRange(d, d.rel[k][2])
                              /\ d.rel[k][1] # d.rel[k][2] /\ RNum(d.rel[k][3])
  /\ \A k \in 1..Len(d.groups) : (\A m \in Members(d.groups[k]) : InRange(d, m))
                                 /\ RNum(d.groups[k][2]) /\ RNum(d.groups[k][3]) /\ RLe(d.groups[k][2], d.groups[k][3])
  /\ \A k \in 1..Len(d.gh) : RowOk(d, d.gh[k])
  /\ \A k \in 1..Len(d.ab) : RowOk(d, d.ab[k])
=============================================================================
