------------------------------- MODULE Label --------------------------------
(* Labelled data.  A presentation of one computation is a sequence of axes, *)
(* each the sequence of labels one input is written with (<<>>: none).  The *)
(* roles say what an axis means: "full" covers the universe, "sub" names    *)
(* some members, "super" covers it and may name more.                        *)
EXTENDS Lin, TLC, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
IsPerm(s, uni) == Len(s) = Len(uni) /\ Rng(s) = Rng(uni)
Fits(s, role, uni) ==
  \/ s = <<>>
  \/ role = "full" /\ IsPerm(s, uni)
  \/ role = "sub" /\ Rng(s) \subseteq Rng(uni)
  \/ role = "super" /\ Rng(uni) \subseteq Rng(s)
FullAxes(axes, roles) == {i \in 1..Len(axes) : roles[i] = "full" /\ axes[i] # <<>>}
\* what has to happen to a presentation
Verdict(axes, roles, uni) ==
  IF \E i \in 1..Len(axes) : ~Fits(axes[i], roles[i], uni) THEN "refused"
  ELSE IF \A i, j \in FullAxes(axes, roles) : axes[i] = axes[j] THEN "answered"
  ELSE "either"
\* the order unlabelled figures are in
Order(axes, uni) == IF axes[1] = <<>> THEN uni ELSE axes[1]

Pos(s, l) == CHOOSE i \in 1..Len(s) : s[i] = l
Close(x, y, t) == (RNum(x) <=> RNum(y)) /\ (RNum(x) => RNear(x, y, RMul(t, RAdd(1, RAbs(y)))))
CloseAll(x, y, t) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i], t)
\* two results attach the same figures to the same labels
ByLabel(o, b, order, t) ==
  /\ o.t = b.t
  /\ LET on == IF o.names = <<>> THEN order ELSE o.names
         bn == b.names IN
     CASE o.t = "num" -> Len(o.v) = Len(b.v) /\ \A i \in 1..Len(o.v) : CloseAll(o.v[i], b.v[i], t)
       [] o.t \in {"vec", "cols"} -> /\ Len(o.v) = Len(on) /\ IsPerm(on, bn)
                                     /\ \A i \in 1..Len(on) : CloseAll(o.v[i], b.v[Pos(bn, on[i])], t)
       [] o.t = "mat" -> /\ Len(o.v) = Len(on) /\ IsPerm(on, bn)
                         /\ \A i, j \in 1..Len(on) : Len(o.v[i]) = Len(on) /\ Close(o.v[i][j], b.v[Pos(bn, on[i])][Pos(bn, on[j])], t)
SameByLabel(outs, base, order, t) == Len(outs) = Len(base) /\ \A i \in 1..Len(outs) : ByLabel(outs[i], base[i], order, t)
=============================================================================
