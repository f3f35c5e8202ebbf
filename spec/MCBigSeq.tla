------------------------------ MODULE MCBigSeq ------------------------------
(* BigSeq's operations against the listed sequence. *)
EXTENDS BigSeq
CONSTANT N
VARIABLES q, seq
vars == <<q, seq>>
Init == q = << >> /\ seq = << >>
Next == \/ \E i \in 0..Len(seq), v \in 1..4, n \in 0..3 :
             /\ Len(seq) + n <= N /\ q' = Insert(q, i, v, n)
             /\ seq' = SubSeq(seq, 1, i) \o [j \in 1..n |-> v + j - 1] \o SubSeq(seq, i + 1, Len(seq))
        \/ \E i \in 0..Len(seq) : \E c \in 0..(Len(seq) - i) :
             q' = Remove(q, i, c) /\ seq' = SubSeq(seq, 1, i) \o SubSeq(seq, i + c + 1, Len(seq))
RECURSIVE Flat(_)
Flat(p) == IF p = << >> THEN << >> ELSE [j \in 1..p[1].n |-> p[1].s + j - 1] \o Flat(Tail(p))
Agree == /\ Flat(q) = seq /\ Length(q) = Len(seq)
         /\ \A i \in 1..Len(seq) : Item(q, i - 1) = seq[i]
         /\ \A i \in 1..Len(q) : q[i].n > 0 /\ (i < Len(q) => q[i].s + q[i].n # q[i + 1].s)
=============================================================================
