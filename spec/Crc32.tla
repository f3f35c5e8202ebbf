------------------------------- MODULE Crc32 -------------------------------
(* CRC-32 (reflected polynomial EDB88320, initial and final complement).        *)
(* 32-bit words are pairs <<high, low>> of 16-bit halves (TLC integers are 32   *)
(* bits signed).                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Bitwise, TLC
X32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Shr1(c) == <<c[1] \div 2, c[2] \div 2 + 32768 * (c[1] % 2)>>
Shr8(c) == <<c[1] \div 256, c[2] \div 256 + 256 * (c[1] % 256)>>
Poly == <<60856, 33568>>            \* edb8 8320
Ones == <<65535, 65535>>
Zero == <<0, 0>>
BitStep(c) == IF c[2] % 2 = 1 THEN X32(Shr1(c), Poly) ELSE Shr1(c)
RECURSIVE Bits(_, _)
Bits(c, k) == IF k = 0 THEN c ELSE Bits(BitStep(c), k - 1)
(* One byte, as the definition has it: eight steps of the shift register *)
ByteDef(c, b) == Bits(<<c[1], c[2] ^^ b>>, 8)
Table == [b \in 0..255 |-> Bits(<<0, b>>, 8)]
ByteStep(c, b) == X32(Shr8(c), Table[(c[2] % 256) ^^ b])
Run(c, s) == FoldLeft(ByteStep, c, s)
Crc(s) == X32(Run(Ones, s), Ones)

(* n zero bytes: the register changes linearly over GF(2), so n steps are a power *)
(* of a 32x32 bit matrix (kept as the images of the 32 unit words)               *)
Pow2(k) == 2 ^ k
Unit(k) == IF k < 16 THEN <<0, Pow2(k)>> ELSE <<Pow2(k - 16), 0>>
Bit(c, k) == IF k < 16 THEN (c[2] \div Pow2(k)) % 2 ELSE (c[1] \div Pow2(k - 16)) % 2
Idx == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31>>
Apply(M, c) == FoldLeft(LAMBDA a, k : IF Bit(c, k) = 1 THEN X32(M[k + 1], a) ELSE a, Zero, Idx)
Square(M) == FoldLeft(LAMBDA a, k : Append(a, Apply(M, M[k + 1])), << >>, Idx)
M0 == FoldLeft(LAMBDA a, k : Append(a, ByteStep(Unit(k), 0)), << >>, Idx)
(* n as a sequence of binary digits, least first *)
RECURSIVE ZerosBits(_, _, _)
ZerosBits(c, M, bs) == IF bs = << >> THEN c
                       ELSE ZerosBits(IF bs[1] = 1 THEN Apply(M, c) ELSE c, IF Len(bs) = 1 THEN M ELSE Square(M), Tail(bs))
RECURSIVE BitsOf(_, _)
BitsOf(n, k) == IF k = 0 THEN << >> ELSE <<n % 2>> \o BitsOf(n \div 2, k - 1)
RECURSIVE Trim(_)
Trim(bs) == IF bs = << >> \/ bs[Len(bs)] = 1 THEN bs ELSE Trim(SubSeq(bs, 1, Len(bs) - 1))
(* n = hi * 65536 + lo *)
Zeros(c, hi, lo) == ZerosBits(c, M0, Trim(BitsOf(lo, 16) \o BitsOf(hi, 24)))

(* The textbook definition: remainder of the message, its bits taken least      *)
(* significant first, its first 32 bits complemented, followed by 32 zeros, by   *)
(* x^32+x^26+x^23+x^22+x^16+x^12+x^11+x^10+x^8+x^7+x^5+x^4+x^2+x+1.              *)
PolyBits == {0, 6, 9, 10, 16, 20, 21, 22, 24, 25, 27, 28, 30, 31, 32}     \* 0 = the leading coefficient
Sym2(a, b) == (a \ b) \union (b \ a)
(* positions (from 1) of the one bits of the message *)
MsgBits(s) == Sym2({i \in 1..(8 * Len(s)) : (s[(i - 1) \div 8 + 1] \div Pow2((i - 1) % 8)) % 2 = 1}, 1..32)
Div(m, n) == FoldLeft(LAMBDA a, i : IF i \in a THEN Sym2(a, {i + k : k \in PolyBits}) ELSE a, m, [i \in 1..n |-> i])
Remainder(s) == LET n == 8 * Len(s)
                    r == {i - n - 1 : i \in Div(MsgBits(s), n)}
                    num(a, b) == FoldSet(LAMBDA k, t : t + Pow2(k % 16), 0, {k \in a..b : k \notin r})
                IN <<num(16, 31), num(0, 15)>>
=============================================================================
