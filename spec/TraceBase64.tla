----------------------------- MODULE TraceBase64 -----------------------------
EXTENDS TraceBase, Base64
VARIABLE last        \* the text the previous encoding produced
TraceInit == TBInit /\ last = << >>
O == [c62 |-> Ev.o[1], c63 |-> Ev.o[2], pad |-> IF Ev.o[3] = 0 THEN -1 ELSE Ev.o[3]]
(* cap = -1: no output buffer, the size is asked for *)
Enc == /\ Is("Enc") /\ Ev.guard = 1
       /\ LET t == Encode(O, Ev.in) n == Len(t) IN
          IF Ev.cap = -1 THEN Ev.r >= n + 1 /\ Ev.r <= 2 * n + 64 /\ UNCHANGED last
          ELSE IF Ev.cap < n THEN Ev.r < 0 /\ UNCHANGED last
          ELSE /\ Ev.r = n /\ SubSeq(Ev.out, 1, n) = t
               /\ Ev.cap > n => Ev.out[n + 1] = 0
               /\ last' = t
Dec == /\ Is("Dec") /\ Ev.guard = 1 /\ UNCHANGED last
       /\ (Ev.again = 1 => Ev.in = last)
       /\ Sane(O) => LET d == Decode(O, Ev.in) n == Len(d) IN
          IF d = Invalid THEN Ev.r < 0
          ELSE IF Ev.cap = -1 THEN Ev.r >= n /\ Ev.r <= n + 4
          ELSE IF Ev.cap < n THEN Ev.r < 0
          ELSE Ev.r = n /\ SubSeq(Ev.out, 1, n) = d
(* Sizes of huge inputs: 3q + m bytes (m < 3) encode to 4 * groups characters, less what padding would fill *)
SizeA == /\ Is("Size") /\ UNCHANGED last
         /\ LET g == Ev.q + (IF Ev.m > 0 THEN 1 ELSE 0)
                less == IF Ev.pad = 0 /\ Ev.m > 0 THEN 3 - Ev.m ELSE 0
            IN IF g > 536870911 THEN Ev.r < 0 ELSE Ev.r < 0 \/ Ev.r >= 4 * g - less
(* a text of 4q times the same character: 3q zero bytes, when that is a number an int can hold *)
HugeD == /\ Is("HugeDec") /\ UNCHANGED last /\ (IF Ev.q > 715827882 THEN Ev.r < 0 ELSE Ev.r = 3 * Ev.q)
TraceNext == \/ Done /\ UNCHANGED last
             \/ Step /\ (Enc \/ Dec \/ SizeA \/ HugeD)
TraceTypeOK == l \in Nat
=============================================================================
