------------------------------ MODULE ListAlg ------------------------------
(* Pointer-level model of data/list.h: two lists of one kind ("D" double-     *)
(* linked, "S" single-linked, "Q" queue) over nodes 1..NN, and the abstract   *)
(* sequences they must represent.  Heads are the nodes -1 and -2.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, NN
VARIABLES n, p, tail, seq, hist
L == {1, 2}
Nodes == 1..NN
All == Nodes \union {-1, -2}
vars == <<n, p, tail, seq, hist>>

Init == /\ n = [x \in All |-> x] /\ p = [x \in All |-> x]
        /\ tail = [i \in L |-> -i]
        /\ seq = [i \in L |-> << >>] /\ hist = ""
Ids(q) == {q[i] : i \in 1..Len(q)}
Free == Nodes \ (Ids(seq[1]) \union Ids(seq[2]))
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
InsAfter(q, x, y) == IF x < 0 THEN <<y>> \o q ELSE LET i == Pos(q, x) IN SubSeq(q, 1, i) \o <<y>> \o SubSeq(q, i + 1, Len(q))
InsBefore(q, x, y) == IF x < 0 THEN q \o <<y>> ELSE LET i == Pos(q, x) IN SubSeq(q, 1, i - 1) \o <<y>> \o SubSeq(q, i, Len(q))
Del(q, x) == LET i == Pos(q, x) IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(i, q) == seq' = [seq EXCEPT ![i] = q]
S(x) == ToString(x)
Cmd(c) == hist' = hist \o ";" \o c

\* the statements of list.h
InsertAfterD(w, y) ==
    LET p1 == [p EXCEPT ![y] = w]
        n1 == [n EXCEPT ![y] = n[w]]
        n2 == [n1 EXCEPT ![w] = y]
    IN n' = n2 /\ p' = [p1 EXCEPT ![n2[y]] = y] /\ UNCHANGED tail
InsertBeforeD(w, y) ==
    LET p1 == [p EXCEPT ![y] = p[w]]
        n1 == [n EXCEPT ![y] = w]
        p2 == [p1 EXCEPT ![w] = y]
    IN p' = p2 /\ n' = [n1 EXCEPT ![p2[y]] = y] /\ UNCHANGED tail
RemoveD(x) == n' = [n EXCEPT ![p[x]] = n[x]] /\ p' = [p EXCEPT ![n[x]] = p[x]] /\ UNCHANGED tail
InsertAfterS(i, w, y) == /\ n' = [n EXCEPT ![y] = n[w], ![w] = y] /\ UNCHANGED p
                         /\ tail' = IF Kind = "Q" /\ tail[i] = w THEN [tail EXCEPT ![i] = y] ELSE tail
AppendQ(i, y) == /\ n' = [[n EXCEPT ![y] = -i] EXCEPT ![tail[i]] = y] /\ UNCHANGED p
                 /\ tail' = [tail EXCEPT ![i] = y]
RemoveS(i, w, x) == /\ n' = [n EXCEPT ![w] = n[x]] /\ UNCHANGED p
                    /\ tail' = IF Kind = "Q" /\ tail[i] = x THEN [tail EXCEPT ![i] = w] ELSE tail

C(op, i, w, y) == Cmd(Kind \o "." \o op \o " " \o S(i) \o " " \o S(w) \o " " \o S(y))
Member(i) == Ids(seq[i])
PrevOf(i, x) == LET k == Pos(seq[i], x) IN IF k = 1 THEN -i ELSE seq[i][k - 1]
NextD == \E i \in L :
    \/ \E y \in Free :
        \/ InsertAfterD(-i, y) /\ Put(i, InsAfter(seq[i], -i, y)) /\ C("pre", i, 0, y)
        \/ InsertBeforeD(-i, y) /\ Put(i, InsBefore(seq[i], -i, y)) /\ C("app", i, 0, y)
        \/ \E w \in Member(i) : InsertAfterD(w, y) /\ Put(i, InsAfter(seq[i], w, y)) /\ C("ia", i, w, y)
        \/ \E w \in Member(i) : InsertBeforeD(w, y) /\ Put(i, InsBefore(seq[i], w, y)) /\ C("ib", i, w, y)
    \/ \E x \in Member(i) : RemoveD(x) /\ Put(i, Del(seq[i], x)) /\ C("rm", i, 0, x)
    \/ seq[i] # << >> /\ RemoveD(n[-i]) /\ Put(i, SubSeq(seq[i], 2, Len(seq[i]))) /\ C("rh", i, 0, seq[i][1])
    \/ seq[i] # << >> /\ RemoveD(p[-i]) /\ Put(i, SubSeq(seq[i], 1, Len(seq[i]) - 1)) /\ C("rt", i, 0, seq[i][Len(seq[i])])
NextS == \E i \in L :
    \/ \E y \in Free :
        \/ InsertAfterS(i, -i, y) /\ Put(i, InsAfter(seq[i], -i, y)) /\ C("pre", i, 0, y)
        \/ Kind = "Q" /\ AppendQ(i, y) /\ Put(i, InsBefore(seq[i], -i, y)) /\ C("app", i, 0, y)
        \/ \E w \in Member(i) : InsertAfterS(i, w, y) /\ Put(i, InsAfter(seq[i], w, y)) /\ C("ia", i, w, y)
    \/ \E x \in Member(i) : /\ PrevOf(i, x) > 0
                            /\ RemoveS(i, PrevOf(i, x), x) /\ Put(i, Del(seq[i], x)) /\ C("rm", i, PrevOf(i, x), x)
    \/ seq[i] # << >> /\ RemoveS(i, -i, n[-i]) /\ Put(i, SubSeq(seq[i], 2, Len(seq[i]))) /\ C("rh", i, 0, seq[i][1])
Next == IF Kind = "D" THEN NextD ELSE NextS

RECURSIVE Chain(_, _, _)
Chain(f, x, k) == IF x < 0 \/ k = 0 THEN << >> ELSE <<x>> \o Chain(f, f[x], k - 1)
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
End(f, x, k) == f[IF Chain(f, f[x], k) = << >> THEN x ELSE Chain(f, f[x], k)[Len(Chain(f, f[x], k))]]
Represents == \A i \in L :
    /\ Chain(n, n[-i], NN + 1) = seq[i] /\ End(n, -i, NN + 1) = -i
    /\ Kind = "D" => Chain(p, p[-i], NN + 1) = Rev(seq[i]) /\ End(p, -i, NN + 1) = -i
    /\ Kind = "Q" => tail[i] = (IF seq[i] = << >> THEN -i ELSE seq[i][Len(seq[i])])
view == seq
PrintPath == PrintT("@" \o hist')
=============================================================================
