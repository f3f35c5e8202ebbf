------------------------------- MODULE TraceHex -------------------------------
EXTENDS TraceBase
TraceInit == TBInit
Digit(v, low) == IF v < 10 THEN 48 + v ELSE IF low = 1 THEN 87 + v ELSE 55 + v
Hex(s, low) == [i \in 1..(2 * Len(s)) |-> Digit(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16, low)]
Val(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Valid(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : Val(t[i]) >= 0
Bytes(t) == [i \in 1..(Len(t) \div 2) |-> 16 * Val(t[2 * i - 1]) + Val(t[2 * i])]
Enc == /\ Is("Enc") /\ Ev.guard = 1
       /\ LET t == Hex(Ev.in, Ev.low) n == Len(t) IN
          IF Ev.cap = -1 THEN Ev.r = n + 1
          ELSE IF Ev.cap < n THEN Ev.r = -1
          ELSE Ev.r = n /\ SubSeq(Ev.out, 1, n) = t /\ (Ev.cap > n => Ev.out[n + 1] = 0)
Dec == /\ Is("Dec") /\ Ev.guard = 1
       /\ IF Ev.cap = -1 THEN Ev.r = Len(Ev.in) \div 2
          ELSE IF ~Valid(Ev.in) \/ Ev.cap < Len(Ev.in) \div 2 THEN Ev.r = -1
          ELSE Ev.r = Len(Ev.in) \div 2 /\ SubSeq(Ev.out, 1, Ev.r) = Bytes(Ev.in)
(* size asked for 2h + m bytes, m < 2 *)
SizeA == Is("Size") /\ (IF Ev.h > 536870911 THEN Ev.r < 0 ELSE Ev.r < 0 \/ Ev.r = 2 * (2 * Ev.h + Ev.m) + 1)
TraceNext == Done \/ (Step /\ (Enc \/ Dec \/ SizeA))
TraceTypeOK == l \in Nat
=============================================================================
