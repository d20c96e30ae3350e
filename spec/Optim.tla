------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* Convex portfolio choice.  A problem is                                  *)
(*    [d, obj, cap, rad]                                                    *)
(*  d    declared restrictions (Feasible.tla)                              *)
(*  obj  sequence of cost terms, the objective is their sum:               *)
(*       [t |-> "lin", a]        a.w                                       *)
(*       [t |-> "quad", M]       w'Mw                       (M psd)        *)
(*       [t |-> "qcost", l, w0]  sum l_i (w_i - w0_i)^2     (l >= 0)       *)
(*       [t |-> "cvar", R, p, al] CVaR of the P&L R w                      *)
(*       [t |-> "pcost", c, w0]  sum c_i |w_i - w0_i|       (c >= 0)       *)
(*       [t |-> "norm", k, S]    k sqrt(w'Sw)               (k >= 0)       *)
(*       [t |-> "gap", S, lam, b] regularised risk-parity gap (w >= 0)     *)
(*  cap  <<>> or <<[S, c]>> : sqrt(w'Sw) <= c                              *)
(*  rad  optimality is claimed among portfolios of gross exposure <= rad   *)
(* Extra rows <<a, b>> (a.w <= b) are return targets.                      *)
(*                                                                         *)
(* Every term is convex, so a witness yields an affine minorant a.v + c;   *)
(* minorants and row multipliers together bound the objective from below   *)
(* on the whole region (weak duality): LowerBound.                         *)
(***************************************************************************)
EXTENDS TailRisk, Feasible

Norm(w, S) == RSqrt(RMax(0, Quad(w, S)))

\* ---- relaxed risk parity ----------------------------------------------
\* psi^2 = (w'Sw)/n + lam * sum S_ii w_i^2,   gamma^2 = min_i w_i (Sw)_i / (n b_i)
PsiMat(S, lam) == LET n == Len(S) IN
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
     RAdd(RDiv(S[i][j], n), IF i = j THEN RMul(lam, S[i][i]) ELSE 0)])])
Psi(w, S, lam) == Norm(w, PsiMat(S, lam))
Contrib(w, S)  == LET z == MV(S, w) IN TLCEval([i \in 1..Len(w) |-> RMul(w[i], z[i])])
FloorOf(w, S, b) == LET c == Contrib(w, S) IN
  RSqrt(RMax(0, VMin(TLCEval([i \in 1..Len(w) |-> RDiv(c[i], RMul(Len(w), b[i]))]))))
ParityGap(w, S, lam, b) == RSub(Psi(w, S, lam), FloorOf(w, S, b))

\* ---- objective ----------------------------------------------------------
TermValue(t, w) ==
  CASE t.t = "lin"   -> RDot(t.a, w)
    [] t.t = "quad"  -> Quad(w, t.M)
    [] t.t = "qcost" -> RSum([i \in 1..Len(w) |-> RMul(t.l[i], RSq(RSub(w[i], t.w0[i])))])
    [] t.t = "cvar"  -> CVaR(Pnl(t.R, w), t.p, t.al)
    [] t.t = "pcost" -> RSum([i \in 1..Len(w) |-> RMul(t.c[i], RAbs(RSub(w[i], t.w0[i])))])
    [] t.t = "norm"  -> RMul(t.k, Norm(w, t.S))
    [] t.t = "gap"   -> ParityGap(w, t.S, t.lam, t.b)
Value(obj, w) == RSum(TLCEval([k \in 1..Len(obj) |-> TermValue(obj[k], w)]))

\* ---- affine minorants ------------------------------------------------------
NoMinor == [ok |-> FALSE, a |-> <<>>, c |-> 0]
NormMinor(k, S, u) ==            \* k sqrt(v'Sv) >= k u'Sv / sqrt(u'Su) : Cauchy-Schwarz
  LET nu == Norm(u, S) IN
  IF ~RGt(nu, 0) THEN [ok |-> RGe(k, 0), a |-> Const(Len(u), 0), c |-> 0]
  ELSE [ok |-> RGe(k, 0), a |-> VScale(RDiv(k, nu), MV(S, u)), c |-> 0]
Minor(t, wit) ==
  CASE t.t = "lin"   -> [ok |-> TRUE, a |-> t.a, c |-> 0]
    [] t.t = "quad"  -> LET g == MV(t.M, wit.u) IN [ok |-> TRUE, a |-> VScale(2, g), c |-> RNeg(RDot(g, wit.u))]
    [] t.t = "qcost" -> [ok |-> TRUE,
                         a |-> TLCEval([i \in 1..Len(t.l) |-> RMul(2, RMul(t.l[i], RSub(wit.u[i], t.w0[i])))]),
                         c |-> RSum([i \in 1..Len(t.l) |-> RMul(t.l[i], RSub(RSq(t.w0[i]), RSq(wit.u[i])))])]
    [] t.t = "cvar"  ->          \* any reweighting q <= p/al of the scenarios bounds the tail mean
         [ok |-> /\ RNear(RSum(wit.q), 1, Tol10)
                 /\ \A s \in 1..Len(t.p) : RLeT(0, wit.q[s], Tol12) /\ RLeT(wit.q[s], RDiv(t.p[s], t.al), Tol10),
          a |-> VScale(-1, TLCEval([j \in 1..Len(t.R[1]) |-> RDot(wit.q, Col(t.R, j))])), c |-> 0]
    [] t.t = "pcost" -> [ok |-> \A i \in 1..Len(t.c) : RLeT(RAbs(wit.s[i]), t.c[i], Tol12),
                         a |-> wit.s, c |-> RNeg(RDot(wit.s, t.w0))]
    [] t.t = "norm"  -> NormMinor(t.k, t.S, wit.u)
    [] t.t = "gap"   ->          \* -min_i sqrt(x_i z_i/(n b_i)) >= -sum th_i/(2 sqrt(n b_i)) (k_i x_i + z_i/k_i)
         LET n == Len(t.b)
             m == NormMinor(1, PsiMat(t.S, t.lam), wit.u)
             f == TLCEval([i \in 1..n |-> RDiv(wit.th[i], RMul(2, RSqrt(RMul(n, t.b[i]))))])
             fl == TLCEval([j \in 1..n |-> RAdd(RMul(f[j], wit.k[j]),
                               RSum([i \in 1..n |-> RMul(RDiv(f[i], wit.k[i]), t.S[i][j])]))])
         IN [ok |-> /\ RLeT(RSum(wit.th), 1, Tol10) /\ \A i \in 1..n : RLeT(0, wit.th[i], Tol12) /\ RGt(wit.k[i], 0),
             a |-> VSub(m.a, fl), c |-> 0]

\* ---- weak duality ----------------------------------------------------------
\* wit: [ts (one per term), lam, nu, eta, cu]
Combine(n, rows, y) == TLCEval([j \in 1..n |-> RSum([k \in 1..Len(rows) |-> RMul(y[k], rows[k][1][j])])])
RhsSum(rows, y)     == RSum([k \in 1..Len(rows) |-> RMul(y[k], rows[k][2])])
SupNorm(v)          == VMax(TLCEval([i \in 1..Len(v) |-> RAbs(v[i])]))
LowerBound(P, hs, hp, wit) ==
  LET n  == P.d.n
      ms == TLCEval([k \in 1..Len(P.obj) |-> Minor(P.obj[k], wit.ts[k])])
      cm == IF P.cap = <<>> THEN [ok |-> TRUE, a |-> Const(n, 0), c |-> 0]
            ELSE LET m == NormMinor(wit.eta, P.cap[1].S, wit.cu) IN [m EXCEPT !.c = RNeg(RMul(wit.eta, P.cap[1].c))]
      ok == /\ \A k \in 1..Len(ms) : ms[k].ok
            /\ cm.ok
            /\ Len(wit.lam) = Len(hs) /\ Len(wit.nu) = Len(hp)
            /\ \A k \in 1..Len(hs) : RLe(0, wit.lam[k])
      r  == TLCEval([j \in 1..n |-> RSum(<<RSum([k \in 1..Len(ms) |-> ms[k].a[j]]), cm.a[j],
                                  Combine(n, hs, wit.lam)[j], Combine(n, hp, wit.nu)[j]>>)])
      c  == RSub(RAdd(RSum([k \in 1..Len(ms) |-> ms[k].c]), cm.c),
                 RAdd(RhsSum(hs, wit.lam), RhsSum(hp, wit.nu)))
  IN  IF ~ok THEN "nan" ELSE RSub(c, RMul(P.rad, SupNorm(r)))

\* no portfolio of gross exposure <= rad comes within Margin of every row
Farkas(P, hs, hp, wit) ==
  LET n == P.d.n
      r == VAdd(Combine(n, hs, wit.lam), Combine(n, hp, wit.nu))
      s == RAdd(RSum(wit.lam), VAbsSum(wit.nu))
      v == RNeg(RAdd(RAdd(RhsSum(hs, wit.lam), RhsSum(hp, wit.nu)), RMul(P.rad, SupNorm(r))))
  IN  IF /\ Len(wit.lam) = Len(hs) /\ Len(wit.nu) = Len(hp) /\ RGt(s, 0)
         /\ \A k \in 1..Len(hs) : RLe(0, wit.lam[k])
      THEN RDiv(v, s) ELSE "nan"

\* distance from the nearest face: how comfortably z satisfies the rows
RoomOf(hs, z) == IF hs = <<>> THEN 1 ELSE VMin(TLCEval([k \in 1..Len(hs) |-> RSub(hs[k][2], RDot(hs[k][1], z))]))
EqOff(hp, z)  == IF hp = <<>> THEN 0 ELSE VMax(TLCEval([k \in 1..Len(hp) |-> RAbs(RSub(RDot(hp[k][1], z), hp[k][2]))]))
Target(mu, tau) == <<VScale(-1, mu), RNeg(tau)>>
\* a trial portfolio is admissible and strictly better by more than tol
Beats(P, hs, hp, v, w, tol) ==
  /\ Below(hs, v) /\ OnAll(hp, v)
  /\ \A k \in 1..Len(P.cap) : RLe(Norm(v, P.cap[k].S), P.cap[k].c)
  /\ RLt(RAdd(Value(P.obj, v), tol), Value(P.obj, w))
\* lattice portfolios: multiples of 1/m between lo/m and hi/m summing to tot/m
RECURSIVE Lattice(_, _, _, _, _)
Lattice(n, m, lo, hi, tot) ==
  IF n = 1 THEN IF lo <= tot /\ tot <= hi THEN {<<R(tot, m)>>} ELSE {}
  ELSE UNION { { <<R(k, m)>> \o x : x \in Lattice(n - 1, m, lo, hi, tot - k) } : k \in lo..hi }
=============================================================================
