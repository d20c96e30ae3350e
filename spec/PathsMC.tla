------------------------------- MODULE PathsMC -------------------------------
(* One portfolio on a random walk: each step draws a historical scenario;    *)
(* the walk keeps its total, its wealth and its running peak.                *)
EXTENDS Paths, SequencesExt, CSV, IOUtils, Json

CONSTANTS Markets, Steps

VARIABLES H, p, w, path, total, peak, down
vars == <<H, p, w, path, total, peak, down>>

Q(i) == R(i, 8)
MarketSet == << << <<Q(1), Q(-1)>>, <<Q(-2), Q(3)>> >>, << <<Q(2), Q(0)>>, <<Q(2), Q(0)>>, <<Q(-4), Q(1)>> >>,
                << <<Q(1), Q(1)>>, <<Q(-3), Q(-3)>>, <<Q(4), Q(-2)>> >> >>
MassesOf(T) == IF T = 2 THEN { <<R(1, 2), R(1, 2)>>, <<R(3, 4), R(1, 4)>>, <<R(0, 1), R(1, 1)>> }
               ELSE { <<R(1, 4), R(1, 4), R(1, 2)>>, <<R(1, 8), R(0, 1), R(7, 8)>>, <<R(0, 1), R(1, 2), R(1, 2)>> }
Books == { <<R(1, 2), R(1, 2)>>, <<R(1, 1), R(-1, 2)>> }
Init == /\ \E i \in Markets : H = MarketSet[i]
        /\ p \in MassesOf(Len(H)) /\ w \in Books
        /\ path = <<>> /\ total = VScale(R(0, 1), H[1]) /\ peak = R(1, 1) /\ down = R(0, 1)
Worth(x) == RAdd(1, RDot(x, w))
Draw == /\ Len(path) < Steps
        /\ \E i \in Rows(H, p) :
           /\ total' = VAdd(total, H[i])
           /\ path' = Append(path, VAdd(total, H[i]))
           /\ LET v == Worth(VAdd(total, H[i])) k == RMax(peak, v) d == RDiv(RSub(k, v), k) IN
              peak' = k /\ down' = RMax(down, d)
        /\ UNCHANGED <<H, p, w>>
        /\ IF path = <<>> THEN CSVWrite("%1$s", <<ToJson([H |-> H, p |-> p, w |-> w])>>, IOEnv.VEMIT) ELSE TRUE
Next == Draw

Walked   == Len(path)
InReach  == total \in Sums(H, p, Walked)
Jumps    == \A t \in 1..Walked : \E i \in Rows(H, p) : VEq(VSub(path[t], IF t = 1 THEN VScale(R(0, 1), H[1]) ELSE path[t - 1]), H[i])
PeakOk   == Walked > 0 => REq(peak, PeakTo(Wealths(path, w), Walked)) /\ REq(down, MaxDown(Wealths(path, w)))
DownOk   == RLe(0, down) /\ (Walked > 0 => RGe(down, Down(Wealths(path, w), Walked)))
            /\ (Walked > 0 => RGe(down, RSub(0, RDot(path[Walked], w))))      \* never less than the loss at the end
\* the distribution after h steps: masses sum to one, mean and covariance grow linearly
WSum(S, f(_)) == LET s == SetToSeq(S) IN RSum([k \in 1..Len(s) |-> f(s[k])])
Cov(i, j, h, S) == LET c(x) == Chance(H, p, h, x)
                       mi == WSum(S, LAMBDA x : RMul(c(x), x[i])) mj == WSum(S, LAMBDA x : RMul(c(x), x[j]))
                   IN  RSub(WSum(S, LAMBDA x : RMul(c(x), RMul(x[i], x[j]))), RMul(mi, mj))
Grows    == (Walked \in 1..2) =>
   LET S == Sums(H, p, Walked) S1 == Sums(H, p, 1) IN
   /\ REq(WSum(S, LAMBDA x : Chance(H, p, Walked, x)), 1)
   /\ \A i \in 1..2 : REq(WSum(S, LAMBDA x : RMul(Chance(H, p, Walked, x), x[i])), RMul(Walked, WSum(S1, LAMBDA x : RMul(Chance(H, p, 1, x), x[i]))))
   /\ \A i, j \in 1..2 : REq(Cov(i, j, Walked, S), RMul(Walked, Cov(i, j, 1, S1)))
\* conversions undo one another and add up
RoundTrip == LET y == total[1] IN RNear(ToLog(ToSimple(y)), y, Tol12)
Compounds == Walked > 1 => RNear(ToSimple(total[1]), RSub(RMul(RAdd(1, ToSimple(path[Walked - 1][1])), RAdd(1, ToSimple(RSub(total[1], path[Walked - 1][1])))), 1), Tol12)
MomentTrip == LET m == <<Q(1), Q(-2)>> C == << <<R(1, 4), R(1, 16)>>, <<R(1, 16), R(1, 8)>> >> IN
              /\ VNear(LogMean(SimpleMean(m, C), SimpleCov(m, C)), m, Tol12)
              /\ \A i \in 1..2 : VNear(LogCov(SimpleMean(m, C), SimpleCov(m, C))[i], C[i], Tol12)
=============================================================================
