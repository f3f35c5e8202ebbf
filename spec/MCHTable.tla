------------------------------ MODULE MCHTable ------------------------------
(* Exhaustive exploration of the map specification; prints one command path   *)
(* for every transition so that each is replayed on the implementation.       *)
EXTENDS HTable, TLC, Sequences, Integers
CONSTANTS NK, Copies      \* keys, and how many nodes of one key
VARIABLES hist
V == <<tab, mem>>
Init == HTInit /\ hist = ""
Cmd(s) == hist' = hist \o ";" \o s
Fresh(k) == <<k, CHOOSE i \in 1..(Copies + 1) : <<k, i>> \notin At(k) /\ \A j \in 1..(i - 1) : <<k, j>> \in At(k)>>
Next == \/ \E k \in 1..NK :
             \/ InsertOk(k, <<k, 1>>) /\ Cmd("i " \o ToString(k))
             \/ InsertDup(k) /\ Cmd("i " \o ToString(k))
             \/ Cardinality(At(k)) < Copies /\ InsertUnsafe(k, Fresh(k)) /\ Cmd("u " \o ToString(k))
             \/ \E f \in 1..2 : k \notin Keys /\ InsertOom /\ mem' = TRUE /\ tab = <<>> /\ Cmd("F " \o ToString(f) \o ";i " \o ToString(k) \o ";F 0")
             \/ RemoveMiss(k) /\ Cmd("r " \o ToString(k))
             \* one of them is removed; the others are then renamed
             \/ k \in Keys /\ RemoveHit(k, <<k, Cardinality(At(k))>>) /\ Cmd("r " \o ToString(k))
             \/ UNCHANGED V /\ Cmd("l " \o ToString(k))
        \/ \E d \in 0..1 : Fini /\ Cmd("f " \o ToString(d))
PrintPath == PrintT("@" \o hist')
View == V
=============================================================================
