------------------------------- MODULE Wide -------------------------------
(* Integers up to 64 bits and beyond as <<a, b, c>> = a*2^48 + b*2^24 + c with *)
(* 0 <= b, c < 2^24 (a carries the sign).                                       *)
EXTENDS Integers
LOCAL B == 16777216
W(n) == <<IF n < 0 THEN -1 ELSE 0, (n \div B) % B, n % B>>
Add(x, y) == LET c == x[3] + y[3] b == x[2] + y[2] + c \div B IN <<x[1] + y[1] + b \div B, b % B, c % B>>
Sub(x, y) == LET c == x[3] - y[3] b == x[2] - y[2] + c \div B IN <<x[1] - y[1] + b \div B, b % B, c % B>>
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
Le(x, y) == x = y \/ Lt(x, y)
MinW(x, y) == IF Lt(x, y) THEN x ELSE y
Neg(x) == x[1] < 0
Fits32(x) == x[1] = 0 /\ x[2] < 256
(* small non-negative ones only *)
ToInt(x) == x[2] * B + x[3]
Zero == <<0, 0, 0>>
=============================================================================
