------------------------------ MODULE MCBigSet ------------------------------
(* The closed forms of BigSet against the listed set, over every small state. *)
EXTENDS BigSet, TLC
CONSTANTS N, M
VARIABLE set      \* the same set, listed
Init == BigInit /\ set = {}
Next == \/ \E n \in 0..N, m \in 1..M : \E R \in SUBSET (0..(m - 1)) : Fill(n, m, R) /\ set' = {k \in 1..n : k % m \in R}
        \/ \E r \in 0..(big.m - 1) : AddRes(r) /\ set' = set \union {k \in (big.cut + 1)..big.top : k % big.m = r}
        \/ \E r \in 0..(big.m - 1) : DelRes(r) /\ set' = {k \in set : k % big.m # r}
        \/ \E c \in 0..N : CutTo(c) /\ set' = {k \in set : k > c}
        \/ \E c \in 0..N : TopTo(c) /\ set' = {k \in set : k <= c}
Mn(Q) == IF Q = {} THEN 0 ELSE MinOf(Q)
Mx(Q) == IF Q = {} THEN 0 ELSE MaxOf(Q)
Nx(k) == Mn({x \in set : x > k})
Agree == /\ Size(big) = Cardinality(set)
         /\ \A k \in 0..(N + 1) : Member(big, k) = (k \in set) /\ Above(big, k) = Nx(k) /\ Below(big, k) = Mx({x \in set : x < k})
         /\ Least(big) = Mn(set) /\ Greatest(big) = Mx(set)
         /\ \A g \in 1..(N + M) : (IF g \in Gaps(big) THEN GapCount(big, g) ELSE 0) = Cardinality({k \in set : Nx(k) # 0 /\ Nx(k) - k = g})
LogOK == \A n \in 0..70, c \in 0..20 : (2^c <= (n + 1) * (n + 1) => BigLog(c, n, 0)) /\ (BigLog(c, n, 0) => c = 0 \/ 2^(c - 1) <= (n + 1) * (n + 1))
=============================================================================
