----------------------------- MODULE ChartTrace -----------------------------
(* Conformance of charts: what is on the axes after a drawing call.          *)
EXTENDS TraceBase, Charts

Refused(o) == o.k = "err" /\ \E i \in 1..Len(o.mro) : o.mro[i] \in {"ValueError", "KeyError", "TypeError", "IndexError", "InfeasibleOptimizationError"}
Names(fs, r, ls) == TLCEval([k \in 1..Len(fs) |-> IF ls # <<>> /\ ls[k] # "" THEN ls[k] ELSE IF r.label # "" THEN r.label ELSE fs[k].measure])

\* one panel: p = [lines, points, records, xlabel, ylabel]
SameXY(a, x, y) == Len(a.x) = Len(x) /\ Len(a.y) = Len(y) /\ VEq(a.x, x) /\ VEq(a.y, y)
LineOk(F, r, it, a) == SameXY(a, IF it.t = "line" THEN RiskOf(F, r.label) ELSE RiskOf(F, it.m), F.ret) /\ a.dash = (it.t = "dash")
At1(F, r, c, a) == SameXY(a, <<RiskOf(F, r.label)[c]>>, <<F.ret[c]>>)
PointOk(F, r, it, a) == IF it.t = "dots" THEN SameXY(a, RiskOf(F, r.label), F.ret) ELSE \E c \in it.at : At1(F, r, c, a)
RecordOk(F, r, it, name, rec) ==
  LET c == rec.index + 1 IN
  /\ c \in it.at /\ rec.frontier = name
  /\ REq(rec.risk, RiskOf(F, r.label)[c]) /\ REq(rec.ret, F.ret[c]) /\ VEq(rec.w, F.W[c]) /\ rec.names = F.names
  /\ rec.measure = (IF r.label # "" THEN r.label ELSE F.measure) /\ rec.meta = F.meta[c]
TokensOk(F, rec, a) == a.tokens = F.toks[rec.index + 1]
\* every item is on the sheet, everything on the sheet is an item, as many of each; the order of drawing is free
Matched(A, B, ok(_, _)) == /\ Len(A) = Len(B)
                           /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : ok(A[i], B[j])
                           /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : ok(A[i], B[j])
JPanel(fs, r, names, p) ==
  LET its == Sheet(fs, r, 1) ls == Lines(its) ps == Points(its) ms == SelectSeq(ps, LAMBDA i : i.t = "mark")
      named(it, a) == IF it.t = "line" THEN a.label = names[it.f] ELSE a.over = <<names[it.f], it.m>>
      sizes == Len(p.lines) = Len(ls) /\ Len(p.points) = Len(ps) /\ Len(p.records) = Len(ms) IN
  {<<"every-frontier-drawn", sizes>>} \cup
  IF ~sizes THEN {} ELSE
  {<<"lines-at-the-stored-figures", Matched(ls, p.lines, LAMBDA it, a : LineOk(fs[it.f], r, it, a))>>,
   <<"lines-named", Matched(ls, p.lines, LAMBDA it, a : LineOk(fs[it.f], r, it, a) /\ named(it, a))>>,
   <<"marks-on-the-right-portfolio", Matched(ps, p.points, LAMBDA it, a : PointOk(fs[it.f], r, it, a))>>,
   <<"marks-documented", Matched(ms, p.records, LAMBDA it, rec : RecordOk(fs[it.f], r, it, names[it.f], rec))>>,
   <<"mark-drawn-where-documented", \A i \in 1..Len(p.records) : \E j \in 1..Len(p.points) : SameXY(p.points[j], <<p.records[i].risk>>, <<p.records[i].ret>>)>>,
   <<"metadata-shown", Matched(ms, p.records, LAMBDA it, rec : rec.index + 1 \in Cols(fs[it.f]) /\ \E j \in 1..Len(p.points) :
        SameXY(p.points[j], <<rec.risk>>, <<rec.ret>>) /\ TokensOk(fs[it.f], rec, p.points[j]))>>,
   <<"axes-named", /\ (r.label # "" => p.xlabel = r.label)
                   /\ (r.label = "" /\ fs # <<>> /\ (\A k \in 1..Len(fs) : fs[k].measure = fs[1].measure) => p.xlabel = fs[1].measure)
                   /\ p.ylabel = r.ylabel>>,
   <<"legend-as-asked", p.legend = r.legend>>, <<"percent-axes", p.pct = <<r.pct, r.pct>>>>}

JChart(ev) ==
  LET o == ev.out IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.wrong \/ Undrawable(ev.fs, ev.r) THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE JPanel(ev.fs, ev.r, Names(ev.fs, ev.r, ev.labels), o.panels[1])
JGrid(ev) ==
  LET o == ev.out ps == Panels(ev.keys) us == KeysOf(ev.keys, 1, <<>>) names == Names(ev.fs, ev.r, ev.labels)
      shape == Len(o.panels) = Len(ps) IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.wrong \/ ev.fs = <<>> \/ Undrawable(ev.fs, ev.r) THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"one-panel-per-group", shape /\ \A i \in 1..Len(ps) : o.panels[i].title = us[i]>>} \cup
       IF ~shape THEN {} ELSE UNION { JPanel([j \in 1..Len(ps[i]) |-> ev.fs[ps[i][j]]], [ev.r EXCEPT !.legend = ev.r.legend /\ (ev.each \/ Len(ps) = 1)],
                                             [j \in 1..Len(ps[i]) |-> names[ps[i][j]]], o.panels[i]) : i \in 1..Len(ps) }

JWeights(ev) ==
  LET o == ev.out IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.wrong THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE {<<"percent-axes", o.pct = ev.pct>>} \cup
       (IF ev.frame THEN {<<"bars-are-the-weights", Len(o.groups) = Len(ev.cols) /\ \A c \in 1..Len(ev.cols) :
                            /\ Len(o.groups[c]) = Len(ev.names)
                            /\ \A i \in 1..Len(ev.names) : o.groups[c][i].name = ev.names[i] /\ RNear(o.groups[c][i].v, ev.W[c][i], Tol12)>>,
                          <<"columns-named", ~ev.legend \/ o.legend = ev.cols>>}
        ELSE {<<"bars-are-the-weights", Len(o.groups) = 1 /\ BarsOf(ev.W[1], ev.names, o.groups[1], ev.top) /\ Sorted(o.groups[1])>>})

\* parameter charts: F.par is the parameter of each column ("nan" when it has none)
HasPar(F) == \A i \in 1..Len(F.par) : RNum(F.par[i])
JParam(ev) ==
  LET o == ev.out F == ev.fs[1] l == ev.label IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ~HasRisk(F, l) \/ (ev.kind # "path" /\ ~HasPar(F)) THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE CASE ev.kind = "path" ->
              {<<"path-at-the-stored-figures", VEq(o.x, RiskOf(F, l)) /\ VEq(o.y, F.ret) /\ (ev.dots => o.trail # <<>> /\ SameXY(o.trail[1], RiskOf(F, l), F.ret))>>,
               <<"path-coloured-by-parameter", HasPar(F) => VEq(o.c, F.par)>>,
               <<"path-overlay", IF ev.over # "" /\ HasRisk(F, ev.over) THEN Len(o.over) = 1 /\ SameXY(o.over[1], RiskOf(F, ev.over), F.ret) ELSE o.over = <<>>>>}
         [] ev.kind = "impact" ->
              {<<"impact-pairs", /\ SamePairs(o.x, o.y, F.par, F.ret) /\ SamePairs(o.x2, o.y2, F.par, RiskOf(F, l)) /\ Increasing(o.x) /\ Increasing(o.x2)>>}
         [] ev.kind = "surface" ->
              {<<"surface-points", VEq(o.x, F.par) /\ VEq(o.y, RiskOf(F, l)) /\ VEq(o.z, F.ret) /\ VEq(o.c, F.par)>>}

\* report: the selected portfolio on the line and its weights in the bars
JReport(ev) ==
  LET o == ev.out F == ev.fs[1] l == ev.r.label q == ev.q
      S == IF q.kind = "given" THEN {} ELSE IF q.kind = "column" THEN (IF ev.at \in Cols(F) THEN {ev.at} ELSE {})
           ELSE IF HasRisk(F, l) THEN Answers(F, q) ELSE {} IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.wrong \/ ~HasRisk(F, l) \/ (q.kind # "given" /\ S = {}) THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE LET p == o.panels[1] bars == o.groups[1] IN
       {<<"lines-at-the-stored-figures", p.lines # <<>> /\ SameXY(p.lines[1], RiskOf(F, l), F.ret)>>,
        <<"bars-are-the-weights", \E W \in (IF q.kind = "given" THEN {ev.W[1]} ELSE {F.W[c] : c \in S}) : BarsOf(W, F.names, bars, 1000)>>,
        <<"selection-marked-where-it-is", q.kind = "given" \/ \E c \in S : BarsOf(F.W[c], F.names, bars, 1000) /\ \E i \in 1..Len(p.points) :
             Len(p.points[i].x) = 1 /\ At1(F, ev.r, c, p.points[i])>>,
        <<"nothing-else-marked", q.kind = "given" \/ \A i \in 1..Len(p.points) : Len(p.points[i].x) = 1 => \E c \in S : At1(F, ev.r, c, p.points[i])>>}

\* assumptions: V holds eigenvectors of S as rows with eigenvalues lam (decreasing), a witness checked here
Tight == Tol8
Eigen(ev) == LET n == Len(ev.S) IN
  /\ \A i, j \in 1..n : RNear(RDot(ev.V[i], ev.V[j]), IF i = j THEN 1 ELSE 0, Tight)
  /\ \A i \in 1..n : VNear(MV(ev.S, ev.V[i]), VScale(ev.lam[i], ev.V[i]), RMul(Tight, RAdd(R(1, 1000), ev.lam[1])))
  /\ \A i \in 1..n - 1 : RLe(ev.lam[i + 1], ev.lam[i])
Proj(ev, sg, x) == IF Len(ev.S) >= 3 THEN TLCEval([i \in 1..3 |-> RMul(sg[i], RDot(ev.V[i], x))])
                   ELSE TLCEval([i \in 1..3 |-> IF i <= Len(x) THEN x[i] ELSE 0])
Signs == IF TRUE THEN [1..3 -> {1, -1}] ELSE {}
Cov3(ev, sg, M) == IF Len(ev.S) >= 3 THEN TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> RMul(RMul(sg[i], sg[j]), RDot(ev.V[i], MV(M, ev.V[j])))])])
                   ELSE TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> IF i <= Len(M) /\ j <= Len(M) THEN M[i][j] ELSE 0])])
\* y = M^-1 (e - m) is given as a witness per mesh point; with one or two assets the ellipsoid is seen edge-on
Radius(M, e, y) == IF VNear(MV(M, y), e, RMul(Tol6, RAdd(1, VAbsSum(e)))) THEN RDot(e, y) ELSE "nan"
OnEllipsoids(M, pts, m, k, flat) ==
  LET d == TLCEval([j \in 1..Len(pts) |-> Radius(M, VSub(pts[j].e, m), pts[j].y)]) slack == RMul(Tol4, RAdd(R(1, 100), RSq(k))) IN
  /\ \A j \in 1..Len(pts) : RNum(d[j]) /\ RLe(d[j], RAdd(RSq(k), slack)) /\ (flat \/ RLe(RSub(RSq(k), slack), d[j]))
  /\ \E j \in 1..Len(pts) : RLe(RDiv(RSq(k), 2), d[j])
NearV(a, b) == VNear(a, b, RMul(Tol8, RAdd(1, VAbsSum(b))))
JAssume(ev) ==
  LET o == ev.out IN
  {<<"inputs-unchanged", ev.same>>} \cup
  IF ev.wrong THEN {<<"undrawable-refused", Refused(o)>>}
  ELSE IF o.k # "ok" THEN {<<"answered", FALSE>>}
  ELSE IF ~Eigen(ev) THEN {<<"no-witness", TRUE>>}
  ELSE LET ok(sg) == /\ NearV(o.mean, Proj(ev, sg, ev.mu))
                     /\ Len(o.cloud) = Len(ev.X) /\ \A k \in 1..Len(ev.X) : NearV(o.cloud[k], Proj(ev, sg, ev.X[k]))
           good == {sg \in Signs : ok(sg)} IN
       {<<"projection-faithful", good # {}>>,
        <<"explained-variance", Len(ev.S) = 1 \/ \A i \in 1..3 : IF i > Len(ev.S) THEN REq(o.share[i], 0)
                                  ELSE RNear(o.share[i], RDiv(RMul(100, RMax(0, ev.lam[i])), RSum([j \in 1..Len(ev.lam) |-> RMax(0, ev.lam[j])])), R(51, 100))>>,
        <<"covariance-ellipsoid", good = {} \/ \E sg \in good : OnEllipsoids(Cov3(ev, sg, ev.S), o.mesh, o.mean, ev.k, Len(ev.S) < 3)>>} \cup
       (IF ev.U = <<>> THEN {} ELSE
        {<<"uncertainty-ellipsoid", good = {} \/ (NearV(o.mean2, o.mean) /\ \E sg \in good : OnEllipsoids(Cov3(ev, sg, ev.U), o.mesh2, o.mean2, ev.ku, Len(ev.S) < 3))>>})

TStart(init) == init
TJudge(s, ev) == CASE ev.op = "chart" -> JChart(ev) [] ev.op = "grid" -> JGrid(ev) [] ev.op = "weights" -> JWeights(ev) [] ev.op = "param" -> JParam(ev)
                   [] ev.op = "report" -> JReport(ev) [] ev.op = "assume" -> JAssume(ev)
TAdvance(s, ev) == s
=============================================================================
