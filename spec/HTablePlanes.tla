---------------------------- MODULE HTablePlanes ----------------------------
(* Algorithm-level model of data/htable.c: planes of P0 * 2^i slots holding   *)
(* chains, growth by a plane when full, merging of the last plane into the    *)
(* one before it when too empty, partial failure of the two allocations of a  *)
(* growth.  The hash function is arbitrary (chosen once).  Checked to refine  *)
(* HTable (the map) and to keep every node in exactly one chain, also when    *)
(* several nodes have the same key.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS NN, NK, P0, HMax, MaxPlanes
Node == 1..NN                    \* nodes; those beyond NK have a key that another node has
Key == 1..NK
KeyOf(n) == ((n - 1) % NK) + 1

VARIABLES hash,      \* Key -> 0..HMax
          planes,    \* sequence of slot arrays; a slot is a chain (sequence of nodes)
          arr,       \* the plane pointer array is allocated
          tab, mem   \* the abstract state, maintained by the HTable actions

A == INSTANCE HTable
Contains(s, x) == \E j \in 1..Len(s) : s[j] = x
vars == <<hash, planes, arr, tab, mem>>

Size(i) == P0 * 2^(i-1)
SlotCount == P0 * (2^Len(planes) - 1)
Slot(k, i) == (hash[k] % Size(i)) + 1
In(i, n) == Contains(planes[i][Slot(KeyOf(n), i)], n)
Chains == {<<i, s>> : i \in 1..Len(planes), s \in 1..(P0 * 2^MaxPlanes)} \cap
          UNION {{<<i, s>> : s \in 1..Size(i)} : i \in 1..Len(planes)}
Count == Cardinality(A!Nodes)

Init == /\ hash \in [Key -> 0..HMax]
        /\ planes = <<>> /\ arr = FALSE
        /\ A!HTInit

(* the lookup: planes from the last, chains from the front *)
Chain(k, i) == SelectSeq(planes[i][Slot(k, i)], LAMBDA n : KeyOf(n) = k)
Found(k) == \E i \in 1..Len(planes) : Chain(k, i) # <<>>
First(k) == LET i == CHOOSE x \in 1..Len(planes) : Chain(k, x) # <<>> /\ \A y \in (x + 1)..Len(planes) : Chain(k, y) = <<>> IN Chain(k, i)[1]

Empty(i) == [s \in 1..Size(i) |-> <<>>]
Put(ps, n) == LET i == Len(ps) IN
              [ps EXCEPT ![i][(hash[KeyOf(n)] % Size(i)) + 1] = <<n>> \o @]

Abs(n, unsafe) == IF unsafe THEN A!InsertUnsafe(KeyOf(n), n) ELSE A!InsertOk(KeyOf(n), n)
Insert(n, unsafe) ==
    /\ n \notin A!Nodes
    /\ unsafe \/ ~Found(KeyOf(n))
    /\ IF Count >= SlotCount /\ Len(planes) < MaxPlanes
       THEN \/ planes' = Put(Append(planes, Empty(Len(planes) + 1)), n) /\ arr' = TRUE /\ Abs(n, unsafe)
            \/ \* the pointer array cannot be extended: use the planes there are
               /\ Len(planes) > 0 /\ planes' = Put(planes, n) /\ UNCHANGED arr /\ Abs(n, unsafe)
            \/ \* nothing at all can be allocated, or the plane itself cannot
               /\ UNCHANGED planes /\ arr' \in {arr, TRUE} /\ A!InsertOom /\ mem' = (arr' \/ mem)
       ELSE planes # <<>> /\ planes' = Put(planes, n) /\ UNCHANGED arr /\ Abs(n, unsafe)
    /\ UNCHANGED hash
InsertPresent(k) == Found(k) /\ A!InsertDup(k) /\ UNCHANGED <<hash, planes, arr>>

Merge(ps) ==   \* last plane into the previous one, each chain put in front of the older chain
    LET n == Len(ps) IN
    IF n <= 1 THEN ps
    ELSE LET a == ps[n-1]
             b == ps[n]
             m == [s \in 1..Size(n-1) |-> b[s + Size(n-1)] \o b[s] \o a[s]]
         IN Append(SubSeq(ps, 1, n-2), m)

Del(ps, n) == [i \in 1..Len(ps) |-> [s \in 1..Size(i) |-> SelectSeq(ps[i][s], LAMBDA x : x # n)]]
Remove(k) ==
    /\ Found(k)
    /\ A!RemoveHit(k, First(k))
    /\ LET n == Count - 1
           q == Del(planes, First(k))
       IN IF n < SlotCount \div 4 \/ n = 0
          THEN IF n = 0 THEN planes' = <<>> /\ arr' = FALSE
               ELSE planes' = Merge(q) /\ UNCHANGED arr
          ELSE planes' = q /\ UNCHANGED arr
    /\ UNCHANGED hash
RemoveAbsent(k) == ~Found(k) /\ A!RemoveMiss(k) /\ UNCHANGED <<hash, planes, arr>>
Finalize == planes' = <<>> /\ arr' = FALSE /\ A!Fini /\ UNCHANGED hash

Next == \/ \E n \in Node, u \in BOOLEAN : Insert(n, u)
        \/ \E k \in Key : InsertPresent(k) \/ Remove(k) \/ RemoveAbsent(k)
        \/ Finalize

(* The planes represent exactly the map. *)
Represents == \A k \in Key : Found(k) <=> k \in A!Keys
AllNodes == \A n \in Node : (n \in A!Nodes) <=> \E i \in 1..Len(planes) : In(i, n)
(* Every stored node is in exactly one chain, once. *)
Occ(n) == LET S == {p \in Chains : Contains(planes[p[1]][p[2]], n)} IN Cardinality(S)
OnePlace == \A n \in Node : Occ(n) = (IF n \in A!Nodes THEN 1 ELSE 0)
NoRepeat == \A p \in Chains : Cardinality({planes[p[1]][p[2]][j] : j \in 1..Len(planes[p[1]][p[2]])}) = Len(planes[p[1]][p[2]])
InPlace == \A p \in Chains : \A j \in 1..Len(planes[p[1]][p[2]]) : Slot(KeyOf(planes[p[1]][p[2]][j]), p[1]) = p[2]
MemOK == (mem = FALSE) => (planes = <<>> /\ arr = FALSE)
EmptyReleased == (Len(planes) > 0) => (Count > 0)
=============================================================================
