------------------------------- MODULE BigSeq -------------------------------
(* Sequences too long to be listed: runs [s, n] of the consecutive numbers     *)
(* s .. s+n-1, kept with no empty run and no two mergeable neighbours, so that *)
(* equal sequences have equal representations.                                 *)
EXTENDS Naturals, Integers, Sequences
RECURSIVE Total(_, _), Norm(_), Take(_, _), Rest(_, _), Item(_, _)
Total(q, i) == IF i > Len(q) THEN 0 ELSE q[i].n + Total(q, i + 1)
Length(q) == Total(q, 1)
Norm(q) == IF q = << >> THEN << >>
           ELSE IF q[1].n = 0 THEN Norm(Tail(q))
           ELSE LET t == Norm(Tail(q)) IN
                IF t # << >> /\ q[1].s + q[1].n = t[1].s THEN <<[s |-> q[1].s, n |-> q[1].n + t[1].n]>> \o Tail(t)
                ELSE <<q[1]>> \o t
(* the first k items, and what follows them *)
Take(q, k) == IF k = 0 \/ q = << >> THEN << >>
              ELSE IF q[1].n >= k THEN <<[s |-> q[1].s, n |-> k]>>
              ELSE <<q[1]>> \o Take(Tail(q), k - q[1].n)
Rest(q, k) == IF k = 0 \/ q = << >> THEN q
              ELSE IF q[1].n > k THEN <<[s |-> q[1].s + k, n |-> q[1].n - k]>> \o Tail(q)
              ELSE Rest(Tail(q), k - q[1].n)
(* item number i, counting from 0 *)
Item(q, i) == IF i < q[1].n THEN q[1].s + i ELSE Item(Tail(q), i - q[1].n)
Insert(q, i, v, n) == Norm(Take(q, i) \o <<[s |-> v, n |-> n]>> \o Rest(q, i))
Remove(q, i, c) == Norm(Take(q, i) \o Rest(q, i + c))
=============================================================================
