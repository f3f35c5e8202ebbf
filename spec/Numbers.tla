------------------------------ MODULE Numbers ------------------------------
(* Exact arithmetic over bit sequences (least significant bit first), for the *)
(* numeric conversions of data/value: two's complement integers and IEEE 754  *)
(* binary32/binary64.  TLC integers are too narrow, so no number is ever held *)
(* as one.                                                                     *)
EXTENDS Naturals, Integers, Sequences
Bits(b) == [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2]
RECURSIVE Byte(_, _)
Byte(q, i) == q[i] + 2*q[i+1] + 4*q[i+2] + 8*q[i+3] + 16*q[i+4] + 32*q[i+5] + 64*q[i+6] + 128*q[i+7]
Bytes(q) == [i \in 1..(Len(q) \div 8) |-> Byte(q, 8 * (i - 1) + 1)]
Zeros(n) == [i \in 1..n |-> 0]
AllZero(q) == \A i \in 1..Len(q) : q[i] = 0
RECURSIVE Trim(_)
Trim(q) == IF q = << >> THEN q ELSE IF q[Len(q)] = 0 THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q
Pad(q, n) == IF Len(q) >= n THEN SubSeq(q, 1, n) ELSE q \o Zeros(n - Len(q))     \* modulo 2^n
RECURSIVE IncFrom(_, _)
IncFrom(q, i) == IF i > Len(q) THEN Append(q, 1) ELSE IF q[i] = 0 THEN [q EXCEPT ![i] = 1] ELSE IncFrom([q EXCEPT ![i] = 0], i + 1)
Inc(q) == IncFrom(q, 1)
Neg(q) == SubSeq(Inc([i \in 1..Len(q) |-> 1 - q[i]]), 1, Len(q))                 \* two's complement, same width
Low(q, n) == SubSeq(q, 1, n)
High(q, n) == SubSeq(q, n + 1, Len(q))
RECURSIVE ToNat(_, _)
ToNat(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + 2 * ToNat(q, i + 1)
RECURSIVE FromNat(_, _)
FromNat(x, n) == IF n = 0 THEN << >> ELSE <<x % 2>> \o FromNat(x \div 2, n - 1)

-----------------------------------------------------------------------------
(* A decoded number: c class ("fin", "inf", "nan"), s sign, m magnitude bits (trimmed), e exponent: (-1)^s m 2^e *)
Fin(s, m, e) == [c |-> "fin", s |-> s, m |-> Trim(m), e |-> e]
TwoC(b, signed) == LET q == Bits(b) n == Len(q) IN
                  IF signed /\ q[n] = 1 THEN Fin(1, Neg(q), 0) ELSE Fin(0, q, 0)
(* f = fraction bits, x = exponent bits, bias *)
Ieee(b, f, x, bias) ==
    LET q == Bits(b)
        frac == Low(q, f)
        ex == ToNat(SubSeq(q, f + 1, f + x), 1)
        s == q[f + x + 1]
    IN IF ex = 2 ^ x - 1 THEN [c |-> IF AllZero(frac) THEN "inf" ELSE "nan", s |-> s, m |-> << >>, e |-> 0]
       ELSE IF ex = 0 THEN Fin(s, frac, 1 - bias - f)
       ELSE Fin(s, Append(frac, 1), ex - bias - f)
(* types: 2 int32, 3 uint32, 4 int64, 5 uint64, 6 float, 7 double *)
Width(t) == IF t \in {2, 3} THEN 32 ELSE 64
Signed(t) == t \in {2, 4}
IsIntT(t) == t \in 2..5
Decode(t, b) == CASE IsIntT(t) -> TwoC(b, Signed(t)) [] t = 6 -> Ieee(b, 23, 8, 127) [] t = 7 -> Ieee(b, 52, 11, 1023)

IsZero(v) == v.c = "fin" /\ v.m = << >>
Integral(v) == v.c = "fin" /\ (v.m = << >> \/ v.e >= 0 \/ (0 - v.e < Len(v.m) /\ AllZero(Low(v.m, 0 - v.e))))
(* integer part of the magnitude; only for exponents up to 64 *)
Whole(v) == IF v.m = << >> THEN << >> ELSE IF v.e >= 0 THEN Zeros(v.e) \o v.m ELSE IF 0 - v.e >= Len(v.m) THEN << >> ELSE High(v.m, 0 - v.e)
Moderate(v) == v.c = "fin" /\ v.e <= 64
FitsMag(s, m, t) == LET q == Trim(m) IN
    IF q = << >> THEN TRUE
    ELSE IF Signed(t) THEN Len(q) < Width(t) \/ (s = 1 /\ Len(q) = Width(t) /\ AllZero(Low(q, Width(t) - 1)))
    ELSE s = 0 /\ Len(q) <= Width(t)
Representable(v, t) == Integral(v) /\ Moderate(v) /\ FitsMag(v.s, Whole(v), t)
(* the bytes of an integer of sign s and magnitude m in type t, modulo the width *)
IntBytes(s, m, t) == LET q == Pad(m, Width(t)) IN Bytes(IF s = 1 THEN Neg(q) ELSE q)
(* the integers nearest to v (both, when it is half way), as byte sequences; none if t cannot represent them *)
Nearest(v, t) ==
    IF ~Moderate(v) THEN {}
    ELSE LET w == Whole(v)
             k == 0 - v.e
             len == Len(v.m)
             half == IF v.e >= 0 \/ v.m = << >> THEN "below" ELSE
                     IF k > len THEN "below"
                     ELSE IF v.m[k] = 0 THEN "below" ELSE IF AllZero(Low(v.m, k - 1)) THEN "half" ELSE "above"
             c == (IF half # "above" THEN {w} ELSE {}) \union (IF half # "below" THEN {Inc(w)} ELSE {})
         IN IF \A q \in c : FitsMag(v.s, q, t) THEN {IntBytes(v.s, q, t) : q \in c} ELSE {}

(* IEEE encoding with rounding to nearest, ties to even: p precision, x exponent bits, bias *)
Encode(v, p, x, bias) ==
    IF v.c = "inf" THEN Bytes(Zeros(p - 1) \o [i \in 1..x |-> 1] \o <<v.s>>)
    ELSE IF v.m = << >> THEN Bytes(Zeros(p - 1 + x) \o <<v.s>>)
    ELSE LET lead == v.e + Len(v.m) - 1
             q0 == IF lead < 1 - bias THEN 2 - bias - p ELSE lead - (p - 1)       \* weight of the last place
             k == q0 - v.e
             mant == IF k <= 0 THEN Zeros(0 - k) \o v.m
                     ELSE LET kept == IF k >= Len(v.m) THEN << >> ELSE High(v.m, k)
                              rb == IF k > Len(v.m) THEN 0 ELSE v.m[k]
                              sticky == IF k > Len(v.m) THEN TRUE ELSE ~AllZero(Low(v.m, k - 1))
                              odd == IF kept = << >> THEN FALSE ELSE kept[1] = 1
                          IN IF rb = 1 /\ (sticky \/ odd) THEN Inc(kept) ELSE kept
             over == Len(mant) = p + 1
             fr == IF over THEN High(mant, 1) ELSE mant
             q == IF over THEN q0 + 1 ELSE q0
             ef == IF Len(fr) = p THEN q + (p - 1) + bias ELSE 0
         IN IF ef >= 2 ^ x - 1 THEN Bytes(Zeros(p - 1) \o [i \in 1..x |-> 1] \o <<v.s>>)
            ELSE Bytes(Pad(Low(fr, IF Len(fr) = p THEN p - 1 ELSE Len(fr)), p - 1) \o FromNat(ef, x) \o <<v.s>>)
Float(v) == Encode(v, 24, 8, 127)
Double(v) == Encode(v, 53, 11, 1023)
=============================================================================
