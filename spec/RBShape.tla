------------------------------ MODULE RBShape ------------------------------
(* Red-black tree shapes as functions over node names (positive integers, 0   *)
(* is nil): t = [root, l, r, c] with c[x] = 1 for red, 0 for black.            *)
(* Used both by the algorithm-level model and on shapes observed on the code. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RECURSIVE BH(_, _, _)
(* Black height, or -1 when a rule is broken; d bounds the recursion. *)
BH(t, x, d) ==
    IF x = 0 THEN 1
    ELSE IF d = 0 THEN -1
    ELSE LET a == BH(t, t.l[x], d - 1)
             b == BH(t, t.r[x], d - 1)
         IN IF a < 0 \/ b < 0 \/ a # b THEN -1
            ELSE IF t.c[x] = 1 /\ ((t.l[x] # 0 /\ t.c[t.l[x]] = 1) \/ (t.r[x] # 0 /\ t.c[t.r[x]] = 1)) THEN -1
            ELSE a + (1 - t.c[x])

Balanced(t, d) == (t.root = 0 \/ t.c[t.root] = 0) /\ BH(t, t.root, d) >= 0

(* For shapes whose colours are not observed: the black heights the subtree   *)
(* at x can have with a black and with a red root, over all colourings that    *)
(* keep the rules. *)
RECURSIVE Heights(_, _, _)
Heights(t, x, d) ==
    IF x = 0 THEN <<{0}, {}>>
    ELSE IF d = 0 THEN <<{}, {}>>
    ELSE LET a == Heights(t, t.l[x], d - 1)
             b == Heights(t, t.r[x], d - 1)
         IN <<{h + 1 : h \in (a[1] \union a[2]) \intersect (b[1] \union b[2])}, a[1] \intersect b[1]>>
Colourable(t, d) == t.root = 0 \/ Heights(t, t.root, d)[1] # {}

RECURSIVE InOrder(_, _, _)
InOrder(t, x, d) == IF x = 0 \/ d = 0 THEN <<>>
                    ELSE InOrder(t, t.l[x], d - 1) \o <<x>> \o InOrder(t, t.r[x], d - 1)

RECURSIVE Height(_, _, _)
Height(t, x, d) == IF x = 0 \/ d = 0 THEN 0
                   ELSE LET a == Height(t, t.l[x], d - 1)
                            b == Height(t, t.r[x], d - 1)
                        IN 1 + (IF a > b THEN a ELSE b)

Pow2(n) == 2^n
(* c <= 2*log2(n+1) + slack, over the integers *)
LogBound(c, n, slack) == IF c <= slack THEN TRUE ELSE IF c - slack < 30 THEN Pow2(c - slack) <= (n + 1) * (n + 1) ELSE FALSE
=============================================================================
