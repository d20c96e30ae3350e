------------------------------- MODULE EnsMC -------------------------------
(* Specifications shared by many runs.  A run builds the frontier of each    *)
(* specification in turn, picks its portfolio, then blends the picks under   *)
(* temporary solver options; building or blending may fail at any point, and *)
(* the caller may overwrite what a run returned before asking again.         *)
EXTENDS Blend, SequencesExt, CSV, IOUtils, Json

CONSTANTS MaxRuns

VARIABLES opts, solver, pc, req, done, hist, answers, script
vars == <<opts, solver, pc, req, done, hist, answers, script>>

SpecIds == {1, 2, 3}            \* 3 cannot be built
Fresh(s)  == [id |-> s, query |-> <<"kind", "label">>]
Tbl(s) == [W |-> << <<R(s, 8), R(8 - s, 8)>>, <<R(s + 3, 8), R(5 - s, 8)>> >>, ret |-> <<R(1, 8), R(s, 4)>>, risk |-> <<R(s, 2), R(1, 1)>>,
           measure |-> "Risk", alts |-> << [name |-> "Other", v |-> <<R(2, 1), R(s, 3)>>] >>]
Query(s) == [kind |-> "min_risk", label |-> IF s = 1 THEN "Other" ELSE "", x |-> R(0, 1)]
Lists == { <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<1, 1>> }
Hows  == {"mean", "stack", "both"}

Init == /\ opts = [s \in SpecIds |-> Fresh(s)] /\ solver = <<>> /\ pc = "idle" /\ req = <<>> /\ done = <<>>
        /\ hist = 0 /\ answers = {} /\ script = <<>>
Begin == /\ pc = "idle" /\ hist < MaxRuns
         /\ \E l \in Lists, h \in Hows : req' = <<l, h>> /\ script' = Append(script, [op |-> "run", l |-> l, how |-> h])
         /\ pc' = "build" /\ done' = <<>> /\ hist' = hist + 1
         /\ UNCHANGED <<opts, solver, answers>>
\* a query reads the options of its specification and leaves them
Pick(s) == LET F == Tbl(s) q == [Query(s) EXCEPT !.label = IF opts[s].query # <<>> THEN @ ELSE ""] IN
           F.W[CHOOSE i \in Answers(F, q) : TRUE]
Distinct == Len(req[1]) = Cardinality({req[1][k] : k \in 1..Len(req[1])})
Build == /\ pc = "build" /\ Len(done) < Len(req[1])
         /\ LET s == req[1][Len(done) + 1] IN
            IF s = 3 \/ ~Distinct THEN pc' = "idle" /\ done' = <<>> ELSE done' = Append(done, Pick(s)) /\ pc' = pc
         /\ UNCHANGED <<opts, solver, req, hist, answers, script>>
Average == /\ pc = "build" /\ Len(done) = Len(req[1]) /\ req[2] = "mean"
           /\ answers' = answers \cup { <<req, Mean(done, Share(<<>>, Len(done), <<>>))>> }
           /\ pc' = "idle" /\ UNCHANGED <<opts, solver, req, done, hist, script>>
Enter == /\ pc = "build" /\ Len(done) = Len(req[1]) /\ req[2] # "mean" /\ Len(done) > 1
         /\ solver' = Append(solver, <<"quiet">>) /\ pc' = "solve" /\ UNCHANGED <<opts, req, done, hist, answers, script>>
TooFew == /\ pc = "build" /\ Len(done) = Len(req[1]) /\ req[2] # "mean" /\ Len(done) < 2
          /\ pc' = "idle" /\ UNCHANGED <<opts, solver, req, done, hist, answers, script>>
Leave == /\ pc = "solve" /\ solver' = SubSeq(solver, 1, Len(solver) - 1) /\ pc' = "idle"
         /\ \/ answers' = answers \cup { <<req, done>> }
            \/ answers' = answers                       \* the solver gave up
         /\ UNCHANGED <<opts, req, done, hist, script>>
Spoil == /\ pc = "idle" /\ hist > 0 /\ hist < MaxRuns /\ script[Len(script)].op = "run"
         /\ script' = Append(script, [op |-> "spoil", l |-> <<>>, how |-> ""])
         /\ UNCHANGED <<opts, solver, pc, req, done, hist, answers>>
Alone == /\ pc = "idle" /\ hist < MaxRuns /\ hist' = hist + 1
         /\ \E s \in {1, 2} : script' = Append(script, [op |-> "use", l |-> <<s>>, how |-> ""])
         /\ UNCHANGED <<opts, solver, pc, req, done, answers>>
Emit == /\ pc = "idle" /\ hist = MaxRuns /\ pc' = "end"
        /\ CSVWrite("%1$s", <<ToJson([script |-> script])>>, IOEnv.VEMIT)
        /\ UNCHANGED <<opts, solver, req, done, hist, answers, script>>
Next == Begin \/ Build \/ Average \/ Enter \/ TooFew \/ Leave \/ Spoil \/ Alone \/ Emit

OptsKept   == \A s \in SpecIds : opts[s] = Fresh(s)
SolverKept == pc \in {"idle", "end"} => solver = <<>>
Nested     == Len(solver) <= 1
Repeatable == \A a, b \in answers : a[1] = b[1] => a[2] = b[2]
InHull     == \A a \in answers : a[1][2] = "mean" => REq(RSum(a[2]), 1)
=============================================================================
