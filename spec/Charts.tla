------------------------------- MODULE Charts -------------------------------
(* What a chart of efficient frontiers, weights or parameters must show.    *)
(* A drawing request is read as a sequence of items on a sheet:             *)
(*   line  the stored (risk, return) pairs of one frontier, in order        *)
(*   dash  the same returns against another risk                            *)
(*   dots  all stored pairs again       mark  one portfolio                  *)
EXTENDS Frontier

\* the columns a mark may stand on, under the risk l on the axis
OnAxis(F, l) == [F EXCEPT !.risk = RiskOf(F, l)]
Marked(F, l, m, rf) ==
  CASE m = "min_risk"   -> ArgMin(Cols(F), RiskOf(F, l))
    [] m = "max_return" -> ArgMax(Cols(F), F.ret)
    [] m = "tangency"   -> IF NoRisk(OnAxis(F, l)) THEN {} ELSE BestSharpe(OnAxis(F, l), rf)
Marks == {"min_risk", "max_return", "tangency"}

\* r = [label, marks, rf, over, dots]: a request that cannot be drawn
Undrawable(fs, r) ==
  \/ \E k \in 1..Len(fs) : ~HasRisk(fs[k], r.label)
  \/ Len(fs) > 0 /\ \E i \in 1..Len(r.marks) : r.marks[i] \notin Marks \/ (r.marks[i] = "tangency" /\ r.rf = "none")

Item(t, k, m, S) == [t |-> t, f |-> k, m |-> m, at |-> S]
RECURSIVE Overlays(_, _, _, _), MarkItems(_, _, _, _)
Overlays(F, k, over, i) == IF i > Len(over) THEN <<>>
  ELSE (IF HasRisk(F, over[i]) THEN <<Item("dash", k, over[i], {})>> ELSE <<>>) \o Overlays(F, k, over, i + 1)
MarkItems(F, k, r, i) == IF i > Len(r.marks) THEN <<>>
  ELSE LET S == Marked(F, r.label, r.marks[i], r.rf) IN
       (IF S = {} THEN <<>> ELSE <<Item("mark", k, r.marks[i], S)>>) \o MarkItems(F, k, r, i + 1)
ItemsOf(F, k, r) == <<Item("line", k, "", {})>> \o (IF r.dots THEN <<Item("dots", k, "", {})>> ELSE <<>>)
                    \o Overlays(F, k, r.over, 1) \o MarkItems(F, k, r, 1)
RECURSIVE Sheet(_, _, _)
Sheet(fs, r, k) == IF k > Len(fs) THEN <<>> ELSE ItemsOf(fs[k], k, r) \o Sheet(fs, r, k + 1)

Lines(items)  == SelectSeq(items, LAMBDA i : i.t \in {"line", "dash"})
Points(items) == SelectSeq(items, LAMBDA i : i.t \in {"dots", "mark"})

\* frontiers fall into panels by key, in order of first appearance; none is lost
RECURSIVE KeysOf(_, _, _)
KeysOf(ks, k, acc) == IF k > Len(ks) THEN acc
  ELSE KeysOf(ks, k + 1, IF \E i \in 1..Len(acc) : acc[i] = ks[k] THEN acc ELSE Append(acc, ks[k]))
Panels(ks) == LET u == KeysOf(ks, 1, <<>>) IN TLCEval([i \in 1..Len(u) |-> SelectSeq([j \in 1..Len(ks) |-> j], LAMBDA j : ks[j] = u[i])])

\* bars: each asset's own weight; the n largest; sorted
BarsOf(v, names, bars, n) ==
  /\ Len(bars) = (IF n < Len(v) THEN n ELSE Len(v))
  /\ \A k \in 1..Len(bars) : \E i \in 1..Len(v) : names[i] = bars[k].name /\ RNear(v[i], bars[k].v, Tol12)
  /\ \A j, k \in 1..Len(bars) : bars[j].name = bars[k].name => j = k
  /\ \A i \in 1..Len(v) : (\E k \in 1..Len(bars) : bars[k].name = names[i]) \/ \A k \in 1..Len(bars) : RLe(v[i], bars[k].v)
Sorted(bars) == \/ \A k \in 1..Len(bars) - 1 : RLe(bars[k].v, bars[k + 1].v)
                \/ \A k \in 1..Len(bars) - 1 : RLe(bars[k + 1].v, bars[k].v)

\* parameter against figure: the same pairs, by increasing parameter
SamePairs(x, y, p, v) ==
  /\ Len(x) = Len(p) /\ Len(y) = Len(p)
  /\ \A i \in 1..Len(p) : Cardinality({j \in 1..Len(p) : REq(x[j], p[i]) /\ REq(y[j], v[i])})
                        = Cardinality({j \in 1..Len(p) : REq(p[j], p[i]) /\ REq(v[j], v[i])})
Increasing(x) == \A i \in 1..Len(x) - 1 : RLe(x[i], x[i + 1])
=============================================================================
