-------------------------------- MODULE List --------------------------------
(* Abstract specification of data/list.h: per kind two sequences of nodes.    *)
EXTENDS Naturals, Integers, Sequences
VARIABLES seq        \* <<kind, list>> -> sequence of distinct node ids
Kinds == {"D", "S", "Q"}
Lists == Kinds \X {1, 2}
LInit == seq = [x \in Lists |-> << >>]
Ids(q) == {q[i] : i \in 1..Len(q)}
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Put(k, q) == seq' = [seq EXCEPT ![k] = q]
InsertAt(q, i, y) == SubSeq(q, 1, i) \o <<y>> \o SubSeq(q, i + 1, Len(q))
DeleteAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Prepend(k, y) == Put(k, InsertAt(seq[k], 0, y))
AppendTo(k, y) == Put(k, InsertAt(seq[k], Len(seq[k]), y))
After(k, w, y) == w \in Ids(seq[k]) /\ Put(k, InsertAt(seq[k], Pos(seq[k], w), y))
Before(k, w, y) == w \in Ids(seq[k]) /\ Put(k, InsertAt(seq[k], Pos(seq[k], w) - 1, y))
Delete(k, x) == x \in Ids(seq[k]) /\ Put(k, DeleteAt(seq[k], Pos(seq[k], x)))
DeleteHead(k) == seq[k] # << >> /\ Put(k, DeleteAt(seq[k], 1))
DeleteTail(k) == seq[k] # << >> /\ Put(k, DeleteAt(seq[k], Len(seq[k])))
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Disjoint == \A a, b \in Lists : a[1] = b[1] /\ a # b => Ids(seq[a]) \cap Ids(seq[b]) = {}
=============================================================================
