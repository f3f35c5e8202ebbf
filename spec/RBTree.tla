------------------------------- MODULE RBTree -------------------------------
(* Abstract specification of data/rbtree: a set of nodes ordered by a total   *)
(* order on keys, one cursor over it, and the stepwise teardown.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES tab,      \* keys present -> node id
          order,    \* which total order the comparator implements
          cur,      \* key the cursor stands on, 0 for none, -1 after a modification
          tearing   \* teardown has begun: only teardown steps are allowed

Keys == DOMAIN tab
Rank(k) == CASE order = 1 -> 0 - k
             [] order = 3 -> (k * 37) % 101
             [] OTHER -> k
Before(a, b) == Rank(a) < Rank(b)
IdOf(k) == IF k = 0 THEN 0 ELSE tab[k]

RBInit == tab = << >> /\ order = 0 /\ cur = 0 /\ tearing = FALSE

InsertOk(k, id) == /\ ~tearing /\ k \notin Keys
                   /\ tab' = [x \in Keys \union {k} |-> IF x = k THEN id ELSE tab[x]]
                   /\ cur' = -1 /\ UNCHANGED <<order, tearing>>
InsertDup(k) == ~tearing /\ k \in Keys /\ UNCHANGED <<tab, order, cur, tearing>>
RemoveHit(k) == /\ ~tearing /\ k \in Keys
                /\ tab' = [x \in Keys \ {k} |-> tab[x]]
                /\ cur' = -1 /\ UNCHANGED <<order, tearing>>
RemoveMiss(k) == ~tearing /\ k \notin Keys /\ UNCHANGED <<tab, order, cur, tearing>>
Query == ~tearing /\ UNCHANGED <<tab, order, cur, tearing>>
MoveTo(k) == ~tearing /\ cur' = k /\ UNCHANGED <<tab, order, tearing>>

Lookup(k) == IF k \in Keys THEN tab[k] ELSE 0
First == IF Keys = {} THEN 0 ELSE CHOOSE k \in Keys : \A x \in Keys : x = k \/ Before(k, x)
Last  == IF Keys = {} THEN 0 ELSE CHOOSE k \in Keys : \A x \in Keys : x = k \/ Before(x, k)
(* in-order neighbours of a present key, 0 at the ends *)
Succ(k) == LET A == {x \in Keys : Before(k, x)} IN
           IF A = {} THEN 0 ELSE CHOOSE x \in A : \A y \in A : y = x \/ Before(x, y)
Pred(k) == LET A == {x \in Keys : Before(x, k)} IN
           IF A = {} THEN 0 ELSE CHOOSE x \in A : \A y \in A : y = x \/ Before(y, x)

(* A walk is right when it lists each stored node once, in order. *)
KeyOf(id) == CHOOSE k \in Keys : tab[k] = id
IsWalk(v, fwd) == /\ Len(v) = Cardinality(Keys)
                  /\ \A i \in 1..Len(v) : \E k \in Keys : tab[k] = v[i]
                  /\ LET w == [i \in 1..Len(v) |-> KeyOf(v[i])] IN
                     \A i \in 1..(Len(v) - 1) : IF fwd THEN Before(w[i], w[i+1]) ELSE Before(w[i+1], w[i])

(* Teardown hands out the nodes in d (distinct, stored); end says it reported completion. *)
FiniSome(d, end) == LET D == {d[i] : i \in 1..Len(d)}
                        Rest == {k \in Keys : tab[k] \notin D}
                    IN /\ Cardinality(D) = Len(d)
                       /\ \A x \in D : \E k \in Keys : tab[k] = x
                       /\ end => Rest = {}
                       /\ tab' = [k \in Rest |-> tab[k]]
                       /\ tearing' = (Rest # {})
                       /\ cur' = IF Keys = {} THEN cur ELSE -1
                       /\ UNCHANGED order
=============================================================================
