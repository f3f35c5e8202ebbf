----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  The environment variable TRACE  *)
(* names an ndjson file with one trace per line, {"ev": [event, ...]}.  Each   *)
(* trace is one initial state; every event must be matched by an action of    *)
(* the trace specification, otherwise TLC reports a deadlock at that event.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l      \* which trace, next event

tvars == <<tid, l>>

TBInit == tid \in 1..Len(Traces) /\ l = 1
More   == l <= Len(Traces[tid].ev)
Ev     == Traces[tid].ev[l]
Is(o)  == More /\ Ev.op = o
(* "wr": writes seen in what the library holds while it was only asked to look.   *)
Looks  == "wr" \in DOMAIN Ev => Ev.wr = 0
Step   == More /\ l' = l + 1 /\ Looks /\ UNCHANGED tid
Done   == ~More /\ UNCHANGED tvars

(* what an error report shows of a state *)
TraceAlias == [tid |-> tid, l |-> l]

MaxN(a, b) == IF a >= b THEN a ELSE b
MinN(a, b) == IF a <= b THEN a ELSE b
=============================================================================
