----------------------------- MODULE LabelTrace -----------------------------
EXTENDS TraceBase, Label

Tol9 == R(1, 1000000000)
TolOf(c) == IF c = "solved" THEN R(1, 20000) ELSE IF c = "iterated" THEN R(1, 1000000) ELSE Tol9
JAsk(s, ev) ==
  LET v == Verdict(ev.axes, s.roles, s.uni)
      same == ev.out.k = "ok" /\ SameByLabel(ev.out.outs, s.base.outs, Order(ev.axes, s.uni), TolOf(s.tol)) IN
  (CASE v = "refused" -> {<<"unmatchable-labels-refused", ev.out.k = "err">>}
     [] v = "answered" -> {<<(IF ev.axes[1] = <<>> THEN "labels-change-nothing-else" ELSE "permuted-inputs-permute-results"),
                              IF s.base.k = "err" THEN ev.out.k = "err" ELSE same>>}
     [] v = "either" -> {<<"reordered-inputs-aligned-or-refused", ev.out.k = "err" \/ same>>}) \cup
  (IF ev.out.k # "ok" THEN {}
   ELSE {<<"results-labelled-as-inputs", ev.axes[1] = <<>> \/ \A i \in 1..Len(ev.out.outs) : (ev.out.outs[i].names = <<>>) <=> (s.base.outs[i].names0 = <<>>)>>})
TStart(init) == init
TJudge(s, ev) == JAsk(s, ev)
TAdvance(s, ev) == s
=============================================================================
