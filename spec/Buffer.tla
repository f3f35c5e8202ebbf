------------------------------- MODULE Buffer -------------------------------
(* Abstract specification of data/buffer: two byte stores (used as BUFFER, as *)
(* STACK or as typed ARRAYs), the space guaranteed by a reservation, and      *)
(* whether a store may / must hold a memory block.                            *)
EXTENDS Naturals, Integers, Sequences

VARIABLES s,      \* store -> byte sequence
          room,   \* store -> bytes that can be added without asking for memory
          blk     \* store -> "no" (holds no block), "maybe"

bvars == <<s, room, blk>>
I == {1, 2}
BInit == /\ s = [b \in I |-> << >>] /\ room = [b \in I |-> 0] /\ blk = [b \in I |-> "no"]

Max0(x) == IF x < 0 THEN 0 ELSE x
Insert(q, off, d) == SubSeq(q, 1, off) \o d \o SubSeq(q, off + 1, Len(q))
Delete(q, off, n) == IF n >= Len(q) - off THEN SubSeq(q, 1, off)
                     ELSE SubSeq(q, 1, off) \o SubSeq(q, off + n + 1, Len(q))
Set(f, b, v) == [f EXCEPT ![b] = v]

InsertOk(b, off, d) == /\ off \in 0..Len(s[b])
                       /\ s' = Set(s, b, Insert(s[b], off, d))
                       /\ room' = Set(room, b, Max0(room[b] - Len(d)))
                       /\ blk' = Set(blk, b, "maybe")
InsertFail(b, n)    == (n > room[b] \/ n = 0) /\ UNCHANGED bvars   \* never within a reservation
(* Removing may give memory back: no reservation survives; an emptied store holds none. *)
Remove(b, off, n)   == /\ s' = Set(s, b, Delete(s[b], off, n))
                       /\ room' = Set(room, b, 0)
                       /\ blk' = Set(blk, b, IF s'[b] = << >> THEN "no" ELSE "maybe")
PopRaw(b, n)        == /\ s' = Set(s, b, SubSeq(s[b], 1, Len(s[b]) - n))    \* size only; storage stays
                       /\ UNCHANGED <<room, blk>>
Overwrite(b, off, d) == /\ off + Len(d) <= Len(s[b])
                        /\ s' = Set(s, b, [i \in 1..Len(s[b]) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE s[b][i]])
                        /\ UNCHANGED <<room, blk>>
ReserveOk(b, n)     == /\ room' = Set(room, b, IF n > room[b] THEN n ELSE room[b])
                       /\ blk' = Set(blk, b, "maybe") /\ UNCHANGED s
Refused             == UNCHANGED bvars
(* Setting the capacity to n: truncates to n, leaves exactly the rest as room. *)
ReallocOk(b, n)     == /\ s' = Set(s, b, IF n < Len(s[b]) THEN SubSeq(s[b], 1, n) ELSE s[b])
                       /\ room' = Set(room, b, n - Len(s'[b]))
                       /\ blk' = Set(blk, b, IF n = 0 THEN "no" ELSE "maybe")
Shrink(b)           == /\ room' = Set(room, b, 0) /\ UNCHANGED <<s, blk>>
Swap                == /\ s' = [b \in I |-> s[3 - b]] /\ room' = [b \in I |-> room[3 - b]]
                       /\ blk' = [b \in I |-> blk[3 - b]]
Release(b)          == /\ s' = Set(s, b, << >>) /\ room' = Set(room, b, 0) /\ blk' = Set(blk, b, "no")

MustHold == {b \in I : s[b] # << >>}
MayHold  == {b \in I : blk[b] = "maybe"}
TypeOK == \A b \in I : room[b] >= 0 /\ (s[b] # << >> => blk[b] = "maybe")
=============================================================================
