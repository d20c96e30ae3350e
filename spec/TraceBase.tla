----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation.  The log is a sequence of sessions [id, init, events] *)
(* recorded from the real library.  Each session is replayed through the   *)
(* specification: state `st` starts at Start(init) and every event must be *)
(* a step the specification allows.  Judge(st, ev) is the set of           *)
(* <<clause name, holds>> pairs of the clauses that apply to the event, so *)
(* that a rejection names the clause; Advance(st, ev) is the successor     *)
(* state.  After a rejected event the session is abandoned.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS Start(_), Judge(_, _), Advance(_, _)

Log == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES si, ei, st
vars == <<si, ei, st>>

Init == /\ si = 1 /\ ei = 1
        /\ st = IF Len(Log) = 0 THEN <<>> ELSE Start(Log[1].init)

NextSession == /\ si' = si + 1 /\ ei' = 1
               /\ st' = IF si < Len(Log) THEN Start(Log[si + 1].init) ELSE <<>>

Report(id, e, v) ==
  CSVWrite("%1$s", <<ToJson([id |-> id, e |-> e,
                             ok  |-> {c[1] : c \in {d \in v : d[2]}},
                             bad |-> {c[1] : c \in {d \in v : ~d[2]}}])>>, IOEnv.VOUT)

Next == /\ si <= Len(Log)
        /\ LET s == Log[si] IN
           IF ei > Len(s.events) THEN NextSession
           ELSE LET ev == s.events[ei]
                    v  == TLCEval(Judge(st, ev))
                IN  /\ Report(s.id, ei, v)
                    /\ IF \E c \in v : ~c[2] THEN NextSession
                       ELSE /\ ei' = ei + 1 /\ si' = si
                            /\ st' = Advance(st, ev)

Done == si = Len(Log) + 1
=============================================================================
