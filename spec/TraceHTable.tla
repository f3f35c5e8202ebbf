---------------------------- MODULE TraceHTable ----------------------------
EXTENDS TraceBase, HTable

CONSTANT Prop         \* which property's observations are judged

vars == <<tab, mem, tid, l>>

P05 == Prop = "C05"
P06 == Prop = "C06"

TraceInit == TBInit /\ HTInit

(* Observations every event carries: e = is_empty afterwards, live = blocks   *)
(* held afterwards, bad = frees of something not allocated.                   *)
Obs == /\ P05 => Ev.e = (IF Keys' = {} THEN 1 ELSE 0)
       /\ P06 => (Ev.bad = 0 /\ (mem' = FALSE => Ev.live = 0))

Insert == Is("Ins") /\
    LET k == Ev.k IN
    IF k \in Keys /\ Ev.u = 0 THEN InsertDup(k) /\ Ev.r = -1
    ELSE IF Ev.r = 0 THEN IF Ev.u = 1 THEN InsertUnsafe(k, Ev.id) ELSE InsertOk(k, Ev.id)
    ELSE Ev.r = -1 /\ Ev.oom > 0 /\ InsertOom /\ mem' = TRUE

LookupA == Is("Look") /\ Ev.r \in Answers(Ev.k) /\ UNCHANGED <<tab, mem>>

Remove == Is("Rem") /\
    IF Ev.k \in Keys THEN RemoveHit(Ev.k, Ev.r)
    ELSE Ev.r = 0 /\ RemoveMiss(Ev.k)

(* Lookup of every key of the universe 1..n. *)
All == Is("All") /\ UNCHANGED <<tab, mem>>
    /\ \A i \in 1..Len(Ev.v) : Ev.v[i] \in Answers(i)

(* Teardown: the destructor's argument list, whether a node was touched after *)
(* its destructor ran shows up as Crash (the driver frees it there).          *)
FiniA ==
    /\ Is("Fini")
    /\ Fini
    /\ P06 => (/\ (Ev.dtor = 1 => /\ Len(Ev.d) = Cardinality(Nodes)
                                  /\ {Ev.d[i] : i \in 1..Len(Ev.d)} = Nodes)
               /\ (Ev.dtor = 0 => Len(Ev.d) = 0))

TraceNext == \/ Done /\ UNCHANGED <<tab, mem>>
             \/ Step /\ (Insert \/ LookupA \/ Remove \/ All \/ FiniA) /\ Obs

TraceTypeOK == Cardinality(Nodes) >= Cardinality(Keys)
=============================================================================
