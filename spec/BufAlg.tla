------------------------------- MODULE BufAlg -------------------------------
(* Algorithm-level model of the capacity management in data/buffer.c: only    *)
(* size and capacity.  Every (size, capacity) pair reachable with the step    *)
(* lengths NS, each operation with and without an allocation failure.         *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS NS, RS, LS, MaxSize
VARIABLES size, alloc, hist
view == <<size, alloc>>

RECURSIVE GoodFrom(_, _)
GoodFrom(g, n) == IF g >= n THEN g ELSE GoodFrom(2 * g, n)
RECURSIVE GoodBig(_, _)
GoodBig(g, n) == IF g - 32 >= n THEN g - 32 ELSE GoodBig(2 * g, n)
Good(n) == IF n <= 256 THEN GoodFrom(16, n) ELSE GoodBig(512, n)
Max0(x) == IF x < 0 THEN 0 ELSE x

Init == size = 0 /\ alloc = 0 /\ hist = ""

(* Would op with parameters (capacity before, target) ask the allocator? *)
Run(c, fail) == hist' = hist \o ";" \o (IF fail THEN "F 1;" \o c \o ";F 0" ELSE c)
Fails(asks) == IF asks THEN BOOLEAN ELSE {FALSE}

AddAsks(n) == alloc = 0 \/ n > alloc - size
Add(n, fail) ==
    IF fail THEN UNCHANGED view
    ELSE /\ size' = size + n
         /\ alloc' = IF AddAsks(n) /\ size + n >= alloc THEN Good(size + n) ELSE alloc
RemSize(off, n) == IF n < size - off THEN size - n ELSE off
RemAsks(off, n) == LET z == RemSize(off, n) IN z > 0 /\ z < alloc \div 4 /\ Good(2 * z) < alloc \div 2
Rem(off, n, fail) ==
    LET z == RemSize(off, n)
    IN /\ size' = z
       /\ alloc' = IF z = 0 THEN 0 ELSE IF RemAsks(off, n) /\ ~fail THEN Good(2 * z) ELSE alloc
RsvAsks(n) == size + n >= alloc /\ Good(size + n) # alloc
Reserve(n, fail) == UNCHANGED size /\ alloc' = IF RsvAsks(n) /\ ~fail THEN Good(size + n) ELSE alloc
ReaAsks(n) == n # alloc /\ n # 0
Realloc(n, fail) ==
    IF fail THEN UNCHANGED view
    ELSE alloc' = n /\ size' = (IF n < size THEN n ELSE size)
ShrNoop == (0 < alloc /\ alloc < 8) \/ (alloc \div 8 < size \div 7)
Shrink(fail) == UNCHANGED size /\ alloc' = IF ShrNoop \/ fail THEN alloc ELSE size

Op(n) == CASE n % 3 = 0 -> "app 1 0 " [] n % 3 = 1 -> "raw 1 0 " [] OTHER -> "ins 1 1 "
Next == \/ \E n \in NS : \E f \in Fails(AddAsks(n)) : size + n <= MaxSize /\ Add(n, f) /\ Run(Op(n + size) \o ToString(n) \o " " \o ToString(size + 3), f)
        \/ \E n \in RS : \E o \in {0, 1, Max0(size - 1)} : \E f \in Fails(RemAsks(o, n)) :
             o < size /\ n > 0 /\ Rem(o, n, f) /\ Run("rem 1 " \o ToString(o) \o " " \o ToString(n), f)
        \/ \E n \in NS : \E f \in Fails(RsvAsks(n)) : size + n <= MaxSize /\ Reserve(n, f) /\ Run("rsv 1 0 " \o ToString(n), f)
        \/ \E n \in LS : \E f \in Fails(ReaAsks(n)) : Realloc(n, f) /\ Run("rea 1 0 " \o ToString(n), f)
        \/ \E f \in Fails(~ShrNoop /\ size # 0 /\ size # alloc) : Shrink(f) /\ Run("shr 1", f)

Fits == size <= alloc
(* Reserving n bytes makes adding up to n bytes independent of the allocator,  *)
(* also when they are added one piece after another.                          *)
AfterReserve == [][\A n \in NS : (Reserve(n, FALSE) /\ n > 0) => n <= alloc' - size']_view
(* A shrunk or emptied buffer never keeps more than it had. *)
NoGrow == [][size' <= size /\ alloc' > alloc => \E n \in NS \union LS : alloc' \in {n, Good(size + n)}]_view
PrintPath == PrintT("@" \o hist')
=============================================================================
