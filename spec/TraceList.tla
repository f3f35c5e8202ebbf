----------------------------- MODULE TraceList -----------------------------
EXTENDS TraceBase, List
TraceInit == TBInit /\ LInit
K == <<Ev.k, Ev.i>>
First(q) == IF q = << >> THEN 0 ELSE q[1]
Last(q) == IF q = << >> THEN 0 ELSE q[Len(q)]
(* What one list shows: forward walk, backward walk, head, tail, emptiness.   *)
Shows(k, o) == LET q == seq'[k] IN
    /\ o.f = q
    /\ o.h = First(q)
    /\ (o.e = 1) = (q = << >>)
    /\ k[1] = "D" => o.b = Rev(q)
    /\ k[1] # "S" => o.t = Last(q)
Obs == /\ Shows(<<Ev.k, 1>>, Ev.o1) /\ Shows(<<Ev.k, 2>>, Ev.o2)
Pre == Is("Pre") /\ Prepend(K, Ev.y)
App == Is("App") /\ AppendTo(K, Ev.y)
Aft == Is("Aft") /\ After(K, Ev.w, Ev.y)
Bef == Is("Bef") /\ Before(K, Ev.w, Ev.y)
Rm == Is("Rm") /\ Delete(K, Ev.y)
Rh == Is("Rh") /\ DeleteHead(K)
Rt == Is("Rt") /\ DeleteTail(K)
Re == Is("Re") /\ Put(K, << >>)          \* re-initialised
TraceNext == \/ Done /\ UNCHANGED seq
             \/ Step /\ (Pre \/ App \/ Aft \/ Bef \/ Rm \/ Rh \/ Rt \/ Re) /\ Obs
TraceTypeOK == Disjoint
=============================================================================
