---------------------------- MODULE MCMemStream ----------------------------
(* Histories of calls on a stream and its clone; prints one history per transition. *)
EXTENDS MemStream, TLC
CONSTANTS MaxOps, Sizes
VARIABLES st, steps, path
vars == <<st, steps, path>>
Gone == [size |-> Zero, pos |-> Zero, known |-> TRUE, refs |-> 0]
Live(i) == st[i].refs > 0
Max32 == <<0, 255, 16777215>>
Big == <<32767, 16777215, 16777215>>
Init == \E n \in Sizes : st = [i \in {0, 1} |-> IF i = 0 THEN New(W(n)) ELSE Gone] /\ steps = 0 /\ path = "new 0 " \o ToString(n)
Op(s) == steps < MaxOps /\ steps' = steps + 1 /\ path' = path \o ";" \o s
Do(i, s, op) == Live(i) /\ Op(op) /\ st' = [st EXCEPT ![i] = s]
S(i) == ToString(i)
Read(i, n) == Do(i, Advance(st[i], ReadN(st[i], W(n))), "rd " \o S(i) \o " " \o ToString(n) \o " 1")
Seeks == {<<W(0), "0">>, <<W(1), "1">>, <<W(3), "3">>, <<W(-1), "-1">>, <<W(-2), "-2">>, <<Max32, "4294967295">>, <<Add(Max32, W(1)), "4294967296">>, <<Big, "9223372036854775807">>, <<Sub(Zero, Max32), "-4294967295">>}
SeekOp(i, d, o) == Do(i, IF SeekOK(st[i], d[1], o) THEN Seek(st[i], d[1], o) ELSE st[i], "sk " \o S(i) \o " " \o d[2] \o " " \o ToString(o) \o " 1")
Copies == {<<W(0), "0">>, <<W(2), "2">>, <<W(9), "9">>, <<Max32, "4294967295">>, <<<<65535, 16777215, 16777215>>, "18446744073709551615">>, <<<<65535, 16777215, 16777213>>, "18446744073709551613">>}
(* the destination takes at most lim bytes, and then takes less or fails *)
Copy(i, n, lim) == Do(i, Advance(st[i], MinW(W(lim), ReadN(st[i], n[1]))), "cp " \o S(i) \o " " \o n[2] \o " p " \o ToString(lim) \o " 3")
CopyFail(i) == Live(i) /\ Op("cp " \o S(i) \o " 2 f 0 3;sk " \o S(i) \o " 0 0 1") /\ st' = [st EXCEPT ![i].pos = Zero]
Ref(i) == st[i].refs < 3 /\ Do(i, [st[i] EXCEPT !.refs = @ + 1], "ar " \o S(i))
Query(i, q) == st[i].refs < 3 /\ Do(i, IF q = 9 THEN st[i] ELSE [st[i] EXCEPT !.refs = @ + 1], "qi " \o S(i) \o " " \o ToString(q))
Rel(i) == Do(i, [st[i] EXCEPT !.refs = @ - 1], "rl " \o S(i))
Other(i, op) == Do(i, st[i], op \o " " \o S(i))
Clone == Live(0) /\ ~Live(1) /\ Op("cl 0 1") /\ st' = [st EXCEPT ![1] = [st[0] EXCEPT !.refs = 1]]
CloneFail == Live(0) /\ ~Live(1) /\ Op("k 1;cl 0 1") /\ UNCHANGED st
Next == \/ \E i \in {0, 1} :
             \/ \E n \in {0, 1, 2, 7} : Read(i, n)
             \/ \E d \in Seeks, o \in 0..3 : SeekOp(i, d, o)
             \/ \E n \in Copies, lim \in {0, 1, 100} : Copy(i, n, lim)
             \/ CopyFail(i) \/ Ref(i) \/ Rel(i) \/ (\E q \in {0, 2, 3, 9} : Query(i, q))
             \/ \E op \in {"wr", "ss", "st", "co", "rv", "lk"} : Other(i, op)
        \/ Clone \/ CloneFail
TypeOK == \A i \in {0, 1} : st[i].refs \in 0..3 /\ Fits32(st[i].pos)
(* a read never goes past the end, and never moves backwards *)
Bound == \A i \in {0, 1} : Live(i) => \A n \in {0, 1, 2, 7} : LET k == ReadN(st[i], W(n)) IN ~Neg(k) /\ Le(k, W(n)) /\ (k # Zero => Le(Add(st[i].pos, k), st[i].size))
View == <<st, steps>>
PrintPath == PrintT("@;" \o path')
Inv == TypeOK /\ Bound
=============================================================================
