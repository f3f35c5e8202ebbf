-------------------------------- MODULE Fnv --------------------------------
(* FNV-1a: for every byte, xor it in, then multiply by the prime modulo 2^W.    *)
(* Words are sequences of W/8 bytes, least significant first.                   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
Prime(w) == IF w = 32 THEN <<147, 1, 0, 1>> ELSE <<179, 1, 0, 0, 0, 1, 0, 0>>       \* 01000193, 100000001b3
Base(w) == IF w = 32 THEN <<197, 157, 28, 129>> ELSE <<37, 35, 34, 132, 228, 156, 242, 203>>   \* 811c9dc5, cbf29ce484222325
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Conv(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, carry) == IF k > Len(a) THEN << >> ELSE LET s == carry + Conv(a, b, k, 1) IN <<s % 256>> \o MulFrom(a, b, k + 1, s \div 256)
Mul(a, b) == MulFrom(a, b, 1, 0)
Step1(h, c) == Mul([h EXCEPT ![1] = @ ^^ c], Prime(8 * Len(h)))
Fnv(h, s) == FoldLeft(Step1, h, s)
(* n zero bytes multiply by prime^n; n given as 16-bit digits, least first *)
One(w) == [i \in 1..(w \div 8) |-> IF i = 1 THEN 1 ELSE 0]
RECURSIVE PowN(_, _, _)
PowN(p, n, k) == IF k = 0 THEN <<One(8 * Len(p)), p>> ELSE
    LET r == PowN(Mul(p, p), n \div 2, k - 1) IN <<IF n % 2 = 1 THEN Mul(r[1], p) ELSE r[1], r[2]>>
RECURSIVE PowD(_, _)
PowD(p, ds) == IF ds = << >> THEN One(8 * Len(p)) ELSE LET r == PowN(p, ds[1], 16) IN Mul(r[1], PowD(r[2], Tail(ds)))
FnvZeros(h, ds) == Mul(h, PowD(Prime(8 * Len(h)), ds))
=============================================================================
