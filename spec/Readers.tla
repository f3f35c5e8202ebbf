------------------------------ MODULE Readers ------------------------------
(* Why queries must not write (C33). N threads look keys up in one object at    *)
(* the same time, cell by cell, any step of one between any two of another. A    *)
(* query that only reads gives each of them the answer it gives a lone caller.   *)
(* With Tidy, a query moves what it found one cell forward (as a self-organising *)
(* table would), reading and writing in steps of their own: the model checker    *)
(* must then find readers that go wrong, although each of them alone is right.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Size, Rounds, Tidy
VARIABLES cell, key, at, pc, hold, got, left
vars == <<cell, key, at, pc, hold, got, left>>
Threads == 1..N
Keys == 1..(Size + 1)                    \* Size + 1 is absent
Init == /\ cell = [i \in 1..Size |-> i] /\ key = [t \in Threads |-> 0] /\ at = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> "idle"]
        /\ hold = [t \in Threads |-> 0] /\ got = [t \in Threads |-> "none"] /\ left = [t \in Threads |-> Rounds]
Ask(t, k) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ key' = [key EXCEPT ![t] = k] /\ at' = [at EXCEPT ![t] = 1]
             /\ pc' = [pc EXCEPT ![t] = "look"] /\ got' = [got EXCEPT ![t] = "none"] /\ UNCHANGED <<cell, hold>>
Look(t) == /\ pc[t] = "look"
           /\ IF at[t] > Size THEN /\ got' = [got EXCEPT ![t] = "miss"] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cell, key, at, hold, left>>
              ELSE IF cell[at[t]] # key[t] THEN at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<cell, key, pc, hold, got, left>>
              ELSE /\ got' = [got EXCEPT ![t] = "hit"] /\ pc' = [pc EXCEPT ![t] = IF Tidy /\ at[t] > 1 THEN "take" ELSE "idle"] /\ UNCHANGED <<cell, key, at, hold, left>>
Take(t) == pc[t] = "take" /\ hold' = [hold EXCEPT ![t] = cell[at[t] - 1]] /\ pc' = [pc EXCEPT ![t] = "put1"] /\ UNCHANGED <<cell, key, at, got, left>>
Put1(t) == pc[t] = "put1" /\ cell' = [cell EXCEPT ![at[t] - 1] = key[t]] /\ pc' = [pc EXCEPT ![t] = "put2"] /\ UNCHANGED <<key, at, hold, got, left>>
Put2(t) == pc[t] = "put2" /\ cell' = [cell EXCEPT ![at[t]] = hold[t]] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<key, at, hold, got, left>>
Next == \E t \in Threads : (\E k \in Keys : Ask(t, k)) \/ Look(t) \/ Take(t) \/ Put1(t) \/ Put2(t)
Right == \A t \in Threads : /\ got[t] = "hit" => key[t] <= Size
                            /\ got[t] = "miss" => key[t] > Size
Untouched == [][cell' = cell]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
