----------------------------- MODULE MemStream -----------------------------
(* A read-only stream over `size' bytes.  A stream is [size, pos, known, refs]; *)
(* `known' is FALSE after a failed copy, when the position is undefined until   *)
(* it is set again.  Each operator gives what a call must do.                    *)
EXTENDS Integers, Sequences, Wide
(* the bytes of every stream: periodic in 2^24 *)
Byte(o) == (o[3] * 7 + o[3] \div 256 + 3) % 251
Data(o, n) == [k \in 1..n |-> Byte(Add(o, W(k - 1)))]
New(size) == [size |-> size, pos |-> Zero, known |-> TRUE, refs |-> 1]
Left(s) == IF Lt(s.pos, s.size) THEN Sub(s.size, s.pos) ELSE Zero
ReadN(s, n) == MinW(n, Left(s))
AtEnd(s) == Left(s) = Zero
Advance(s, n) == [s EXCEPT !.pos = Add(@, n)]
Target(s, delta, origin) == CASE origin = 0 -> delta [] origin = 1 -> Add(s.pos, delta) [] origin = 2 -> Add(s.size, delta)
SeekOK(s, delta, origin) == origin \in 0..2 /\ ~Neg(Target(s, delta, origin)) /\ Fits32(Target(s, delta, origin))
Seek(s, delta, origin) == [s EXCEPT !.pos = Target(s, delta, origin), !.known = @ \/ origin # 1]
=============================================================================
