------------------------------- MODULE BigSet -------------------------------
(* Sets too large to be listed: the numbers in (cut, top] whose remainder     *)
(* modulo m lies in R, with closed forms for size, order and neighbours, so   *)
(* that histories over containers of 10^5 and more elements can be judged.    *)
EXTENDS Naturals, Integers, FiniteSets

VARIABLE big      \* [cut, top, m, R]

Member(s, k) == k > s.cut /\ k <= s.top /\ k % s.m \in s.R
(* how many members have remainder r *)
CountRes(s, r) == IF s.top <= s.cut THEN 0 ELSE (s.top - r) \div s.m - (s.cut - r) \div s.m
RECURSIVE SumRes(_, _)
SumRes(s, Q) == IF Q = {} THEN 0 ELSE LET r == CHOOSE x \in Q : TRUE IN CountRes(s, r) + SumRes(s, Q \ {r})
Size(s) == SumRes(s, s.R)

MinOf(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
MaxOf(Q) == CHOOSE x \in Q : \A y \in Q : x >= y
(* the least member above k / greatest below k, 0 when there is none *)
Above(s, k) == LET b == IF k < s.cut THEN s.cut ELSE k
                   Q == {x \in {b + 1 + ((r - b - 1) % s.m) : r \in s.R} : x <= s.top} IN IF Q = {} THEN 0 ELSE MinOf(Q)
Below(s, k) == LET b == IF k > s.top + 1 THEN s.top + 1 ELSE k
                   Q == {x \in {b - 1 - ((b - 1 - r) % s.m) : r \in s.R} : x > s.cut} IN IF Q = {} THEN 0 ELSE MaxOf(Q)
Least(s) == Above(s, s.cut)
Greatest(s) == Below(s, s.top + 1)
(* distance from a member with remainder r to the next one, and how many members lie that far from their successor *)
GapAfter(s, r) == 1 + MinOf({(q - r - 1) % s.m : q \in s.R})
Gaps(s) == {GapAfter(s, r) : r \in s.R}
RECURSIVE SumGap(_, _, _)
SumGap(s, Q, g) == IF Q = {} THEN 0 ELSE LET r == CHOOSE x \in Q : TRUE IN
                   (IF GapAfter(s, r) = g THEN CountRes(s, r) - (IF Greatest(s) # 0 /\ Greatest(s) % s.m = r THEN 1 ELSE 0) ELSE 0) + SumGap(s, Q \ {r}, g)
GapCount(s, g) == SumGap(s, s.R, g)

BigInit == big = [cut |-> 0, top |-> 0, m |-> 1, R |-> {}]
(* operations; each is a whole run of single insertions or removals *)
Fill(n, m, R) == Size(big) = 0 /\ big' = [cut |-> 0, top |-> n, m |-> m, R |-> R]
AddRes(r) == big' = [big EXCEPT !.R = @ \union {r}]
DelRes(r) == big' = [big EXCEPT !.R = @ \ {r}]
CutTo(c) == big' = [big EXCEPT !.cut = IF c > @ THEN c ELSE @]
TopTo(c) == big' = [big EXCEPT !.top = IF c < @ THEN c ELSE @]
Same == UNCHANGED big
Emptied == big' = [cut |-> 0, top |-> 0, m |-> 1, R |-> {}]

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
(* c <= 2*log2(n+1) + slack for an integer c (coarser by less than one) *)
BigLog(c, n, slack) == c - slack <= 2 * Log2(n + 1) + 1
=============================================================================
