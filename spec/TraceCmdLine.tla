---------------------------- MODULE TraceCmdLine ----------------------------
EXTENDS TraceBase, CmdLine
CONSTANT Prop
TraceInit == TBInit
(* long names may be cut when they have to be taken out of a word name=argument *)
Same(c, e, eq) == /\ c.id = e.id /\ c.has = e.has
              /\ \/ c.arg = e.arg
                 \/ (e.id = Bogus \/ (e.id = Unknown /\ eq)) /\ Len(e.arg) > 31 /\ Len(c.arg) >= 24 /\ Starts(e.arg, c.arg)
SameCalls(a, b, argv) ==
    /\ Len(a) = Len(b)
    /\ \A k \in 1..Len(a) : Same(a[k], b[k], \E j \in 1..Len(argv) : Starts(argv[j], Append(b[k].arg, Equals)))

Read == /\ Is("Read") /\ Ev.ud = 1 /\ Ev.kept = 1
        /\ IF Prop = "C28" THEN Ev.r = 0 /\ SameCalls(Ev.calls, IF Len(Ev.argv) > 300 THEN ParseLong(Ev.opts, Ev.argv) ELSE Parse(Ev.opts, Ev.argv), Ev.argv)
           ELSE (* the same line again, the callback answering v from its k-th call on *)
                /\ Ev.r = 0
                /\ \A a \in 1..Len(Ev.runs) :
                     LET run == Ev.runs[a] IN
                     IF run.k <= Len(Ev.calls) THEN run.r = run.v /\ run.calls = SubSeq(Ev.calls, 1, run.k)
                     ELSE run.r = 0 /\ run.calls = Ev.calls
TraceNext == Done \/ (Step /\ Read)
TraceTypeOK == l \in Nat
=============================================================================
