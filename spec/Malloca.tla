------------------------------ MODULE Malloca ------------------------------
(* The stack-or-heap decision in machine arithmetic: size and threshold are     *)
(* numbers modulo W, H is the bookkeeping word kept in front of the block.       *)
EXTENDS Integers
CONSTANTS W, H
VARIABLES size, thr
Init == size \in 0..(W - 1) /\ thr \in 0..(W - 1)
Next == UNCHANGED <<size, thr>>
OnStack == thr > H /\ size < thr - H
Bytes == IF OnStack THEN (size + H) % W ELSE IF size > W - 1 - H THEN -1 ELSE size + H       \* -1: NULL
Enough == Bytes # -1 => Bytes >= size + H
Refuse == Bytes = -1 => size + H >= W
StackBound == OnStack => Bytes < thr
Side == (size >= thr => ~OnStack) /\ (size + H < thr => OnStack)
Inv == Enough /\ Refuse /\ StackBound /\ Side
=============================================================================
