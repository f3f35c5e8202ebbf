------------------------------- MODULE ArrAlg -------------------------------
(* Algorithm-level model of value_array_*: a storage block of alloc cells of   *)
(* which the first size are in use, moved by memmove, grown and shrunk to      *)
(* rounded sizes, with every reallocation allowed to fail.  Checked to refine  *)
(* the sequence (seq).                                                         *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANT MaxSize, Points
VARIABLES buf, size, seq, next, hist
vars == <<buf, size, seq, next, hist>>
Junk == 0
alloc == Len(buf)
RECURSIVE P2(_, _)
P2(g, a) == IF g >= a THEN g ELSE P2(2 * g, a)
Good(a) == IF a <= 16 THEN P2(1, a) ELSE P2(16, a + 2) - 2
Realloc(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE Junk]
Move(b, to, from, n) == [i \in 1..Len(b) |-> IF i > to /\ i <= to + n THEN b[i - to + from] ELSE b[i]]

Init == buf = << >> /\ size = 0 /\ seq = << >> /\ next = 1 /\ hist = ""
Cmd(s) == hist' = hist \o ";" \o s
Insert(i, fail) ==
    /\ i <= size /\ size < MaxSize
    /\ (fail => size >= alloc)                \* only a reallocation can fail
    /\ Cmd((IF fail THEN "F 1;" ELSE "") \o "ins " \o ToString(i))
    /\ IF fail THEN UNCHANGED <<buf, size, seq, next>>
       ELSE LET b == IF size >= alloc THEN Realloc(buf, Good(alloc + 1)) ELSE buf
                c == Move(b, i + 1, i, size - i)
            IN /\ buf' = [c EXCEPT ![i + 1] = next] /\ size' = size + 1 /\ next' = next + 1
               /\ seq' = SubSeq(seq, 1, i) \o <<next>> \o SubSeq(seq, i + 1, Len(seq))
Range(i, n, fail) ==
    /\ i + n <= size
    /\ LET b == Move(buf, i, i + n, size - (i + n))
           z == size - n
           shrink == z < alloc \div 4
       IN /\ (fail => shrink)
          /\ Cmd((IF fail THEN "F 1;" ELSE "") \o "rng " \o ToString(i) \o " " \o ToString(n))
          /\ buf' = (IF shrink /\ ~fail THEN Realloc(b, Good(2 * z)) ELSE b)
          /\ size' = z /\ UNCHANGED next
          /\ seq' = SubSeq(seq, 1, i) \o SubSeq(seq, i + n + 1, Len(seq))
Clean == size > 0 /\ buf' = << >> /\ size' = 0 /\ seq' = << >> /\ UNCHANGED next /\ Cmd("acl")
At(z) == IF Points = 0 THEN 0..z ELSE {0, 1, z \div 2, z - 1, z} \intersect (0..z)
Next == \/ \E i \in At(size), f \in BOOLEAN : Insert(i, f)
        \/ \E i \in At(size), f \in BOOLEAN : \E n \in At(size - i) : Range(i, n, f)
        \/ Clean
view == <<alloc, size>>
Refines == size <= alloc /\ Len(seq) = size /\ \A i \in 1..size : buf[i] = seq[i]
PrintPath == PrintT("@" \o hist')
=============================================================================
