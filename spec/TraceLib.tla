------------------------------ MODULE TraceLib ------------------------------
(* Validation of events recorded from the real library.                      *)
(* TRACE (environment) names an ndjson file; each line is one event.         *)
(* Verdict(i) is the set of names of the clauses event i violates: it is     *)
(* total, so every event is judged and every failing clause is named.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Verdict(_), Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hi

Size == (Len(Trace) + Chunks - 1) \div Chunks
TInit == \E c \in 0..(Chunks - 1) :
            /\ l = (IF c * Size < Len(Trace) THEN c * Size ELSE Len(Trace)) + 1
            /\ hi = c
TNext == /\ l <= Len(Trace) /\ l <= (hi + 1) * Size
         /\ LET bad == Verdict(l)
            IN  IF bad = {} THEN TRUE
                ELSE PrintT(<<"BAD", ToJson([l |-> l, c |-> bad])>>)
         /\ l' = l + 1 /\ hi' = hi
TSpec == TInit /\ [][TNext]_<<l, hi>>

\* In a recorded history, each event starts where the previous one ended.
Continues(i) == \/ Trace[i].seq = 1
                \/ i > 1 /\ Trace[i-1].tid = Trace[i].tid
                         /\ Trace[i-1].seq + 1 = Trace[i].seq
                         /\ Trace[i-1].post = Trace[i].pre
=============================================================================
