------------------------------ MODULE RefCount ------------------------------
(* Several threads taking and giving back references to one object. The count   *)
(* changes in one atomic step; what follows it up to the return (for the release *)
(* that took the count to zero: destroying the object) is a separate step, so     *)
(* other threads may run in between. The object is destroyed exactly once, by the *)
(* last release, and never used afterwards.                                       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, MaxHold, MaxOps, Ops         \* Ops: "a" AddRef, "q" QueryInterface, "r" Release
VARIABLES refs, held, freed, pc, path, ops
vars == <<refs, held, freed, pc, path, ops>>
Threads == 1..N
Init == refs = N /\ held = [t \in Threads |-> 1] /\ freed = 0 /\ pc = [t \in Threads |-> "idle"] /\ path = "il " \o ToString(N) /\ ops = 0
Say(s) == path' = path \o " " \o s
Idle(t) == pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
Take(t, o) == Idle(t) /\ o \in {"a", "q"} /\ held[t] \in 1..(MaxHold - 1) /\ refs' = refs + 1 /\ held' = [held EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED freed /\ Say(o \o ToString(t))
Drop(t) == Idle(t) /\ held[t] > 0 /\ refs' = refs - 1 /\ held' = [held EXCEPT ![t] = @ - 1]
          /\ pc' = [pc EXCEPT ![t] = IF refs' = 0 THEN "destroy" ELSE "ret"] /\ UNCHANGED freed /\ Say("r" \o ToString(t))
Finish(t) == pc[t] # "idle" /\ freed' = freed + (IF pc[t] = "destroy" THEN 1 ELSE 0) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<refs, held, ops>> /\ Say("f" \o ToString(t))
Next == \E t \in Threads : (\E o \in Ops \ {"r"} : Take(t, o)) \/ Drop(t) \/ Finish(t)
SafeUse == \A t \in Threads : held[t] > 0 => freed = 0 /\ \A u \in Threads : pc[u] # "destroy"
Once == freed <= 1
AllGone == (\A t \in Threads : held[t] = 0 /\ pc[t] = "idle") => freed = 1
Count == refs = LET S[k \in 0..N] == IF k = 0 THEN 0 ELSE S[k - 1] + held[k] IN S[N]
Inv == SafeUse /\ Once /\ AllGone /\ Count
View == <<refs, held, freed, pc, ops>>
PrintPath == (ops' = MaxOps /\ \A t \in Threads : pc'[t] = "idle") => PrintT("@" \o path')
=============================================================================
