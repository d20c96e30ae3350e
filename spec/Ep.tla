--------------------------------- MODULE Ep ---------------------------------
(* Entropy pooling: views on scenario probabilities as linear conditions,   *)
(* the distribution of least relative entropy, and a certificate for it.    *)
(*                                                                          *)
(* A condition is [op, row, rhs]: row . q = rhs ("eq") or <= rhs ("le").    *)
EXTENDS Prob

Scen(Rm)      == Len(Rm)
ColOf(Rm, i)  == Col(Rm, i)
Mean(Rm, q)   == TLCEval([i \in 1..Len(Rm[1]) |-> RDot(Col(Rm, i), q)])
Cross(Rm, q, mu, i, j) == RSum([t \in 1..Len(Rm) |-> RMul(q[t], RMul(RSub(Rm[t][i], mu[i]), RSub(Rm[t][j], mu[j])))])
Cov(Rm, q)    == LET mu == Mean(Rm, q) IN
                 TLCEval([i \in 1..Len(mu) |-> TLCEval([j \in 1..Len(mu) |-> Cross(Rm, q, mu, i, j)])])
Vars(Rm, q)   == LET mu == Mean(Rm, q) IN TLCEval([i \in 1..Len(mu) |-> Cross(Rm, q, mu, i, i)])
Ref(Rm, q)    == [mu |-> Mean(Rm, q), var |-> Vars(Rm, q)]

\* ---- views ----------------------------------------------------------------
\* A view is [kind, i, j, op, t, lvl]; kinds mean, rel, vol, var, skew, corr, quant
Prod(u, v)    == TLCEval([t \in 1..Len(u) |-> RMul(u[t], v[t])])
RowOf(Rm, v)  ==
  LET x == Col(Rm, v.i) IN
  CASE v.kind = "mean"  -> x
    [] v.kind = "rel"   -> VSub(x, Col(Rm, v.j))
    [] v.kind \in {"vol", "var"} -> Prod(x, x)
    [] v.kind = "skew"  -> Prod(x, Prod(x, x))
    [] v.kind = "corr"  -> Prod(x, Col(Rm, v.j))
    [] v.kind = "quant" -> TLCEval([t \in 1..Len(x) |-> IF RLe(x[t], v.lvl) THEN 1 ELSE 0])
RhsOf(v, ref) ==
  LET m == ref.mu[v.i] s2 == ref.var[v.i] IN
  CASE v.kind \in {"mean", "rel", "quant"} -> v.t
    [] v.kind = "vol"  -> RAdd(RSq(v.t), RSq(m))
    [] v.kind = "var"  -> RAdd(v.t, RSq(m))
    [] v.kind = "skew" -> RAdd(RMul(v.t, RMul(s2, RSqrt(s2))), RAdd(RMul(3, RMul(m, s2)), RPow(m, 3)))
    [] v.kind = "corr" -> RAdd(RMul(v.t, RSqrt(RMul(s2, ref.var[v.j]))), RMul(m, ref.mu[v.j]))
CondOf(Rm, v, ref) ==
  LET row == RowOf(Rm, v) rhs == RhsOf(v, ref) IN
  CASE v.op = "==" -> [op |-> "eq", row |-> row, rhs |-> rhs]
    [] v.op \in {"<=", "<"} -> [op |-> "le", row |-> row, rhs |-> rhs]
    [] v.op \in {">=", ">"} -> [op |-> "le", row |-> VScale(-1, row), rhs |-> RNeg(rhs)]
Conds(Rm, vs, ref) == TLCEval([k \in 1..Len(vs) |-> CondOf(Rm, vs[k], ref)])
\* the worst k scenarios carry probability g and have mean c
TailConds(Rm, i, worst, g, c) ==
  LET ind == TLCEval([t \in 1..Len(Rm) |-> IF t \in worst THEN 1 ELSE 0]) IN
  << [op |-> "eq", row |-> ind, rhs |-> g],
     [op |-> "eq", row |-> TLCEval([t \in 1..Len(Rm) |-> IF t \in worst THEN Rm[t][i] ELSE 0]), rhs |-> RMul(g, c)] >>

RowMag(c)      == LET m == VMax(TLCEval([t \in 1..Len(c.row) |-> RAbs(c.row[t])])) IN IF RZero(m) THEN 1 ELSE m
Slack(c, q)    == RSub(RDot(c.row, q), c.rhs)
Met(c, q, tol) == LET s == Slack(c, q) t == RMul(tol, RowMag(c)) IN
                  IF c.op = "eq" THEN RLe(RAbs(s), t) ELSE RLe(s, t)
AllMet(cs, q, tol) == \A k \in 1..Len(cs) : Met(cs[k], q, tol)

\* ---- certificate of least relative entropy --------------------------------
\* KL(., p) is convex with gradient ln(q/p) + 1, so for every distribution r
\* meeting the conditions, with multipliers y (y_k >= 0 for inequalities) and
\* c any constant,  KL(q,p) - KL(r,p) <= Gap.
LogRatio(q, p) == TLCEval([t \in 1..Len(q) |-> RLn(RDiv(q[t], p[t]))])
Gap(q, p, cs, y, c0) ==
  LET g   == LogRatio(q, p)
      res == TLCEval([t \in 1..Len(q) |-> RAbs(RAdd(RSub(g[t], c0), RSum([k \in 1..Len(cs) |-> RMul(y[k], cs[k].row[t])])))])
  IN  RAdd(RMul(2, VMax(res)), RSum([k \in 1..Len(cs) |-> RMul(RAbs(y[k]), RAbs(Slack(cs[k], q)))]))
Signs(cs, y) == \A k \in 1..Len(cs) : cs[k].op = "le" => RLe(0, y[k])

Strict(q) == \A t \in 1..Len(q) : RGt(q[t], 0)
=============================================================================
