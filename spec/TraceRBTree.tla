---------------------------- MODULE TraceRBTree ----------------------------
EXTENDS TraceBase, RBTree, RBShape
CONSTANT Prop         \* C08 set, C09 balance, C10 cursors, C11 teardown
av == <<tab, order, cur, tearing>>
TraceInit == TBInit /\ RBInit

N == Cardinality(Keys)
P09 == Prop = "C09"
(* every event: emptiness afterwards, comparator calls within the logarithmic bound *)
Obs == /\ (tearing' = FALSE) => Ev.e = (IF DOMAIN tab' = {} THEN 1 ELSE 0)
       /\ P09 => LogBound(Ev.c, N, 2)

Cmp == Is("Cmp") /\ Keys = {} /\ order' = Ev.m /\ UNCHANGED <<tab, cur, tearing>>
Ins == /\ Is("Ins")
       /\ IF Ev.k \in Keys THEN Ev.r = -1 /\ InsertDup(Ev.k)
          ELSE Ev.r = 0 /\ InsertOk(Ev.k, Ev.id)
Rem == /\ Is("Rem")
       /\ IF Ev.k \in Keys THEN Ev.r = tab[Ev.k] /\ RemoveHit(Ev.k)
          ELSE Ev.r = 0 /\ RemoveMiss(Ev.k)
Look == Is("Look") /\ Ev.r = Lookup(Ev.k) /\ Query
Walk == Is("Walk") /\ IsWalk(Ev.v, TRUE) /\ Query
WalkB == Is("WalkB") /\ IsWalk(Ev.v, FALSE) /\ Query

(* A run of insertions (+k) and removals (-k), node ids assigned to insertions in turn *)
RECURSIVE Fold(_, _, _, _)
Fold(f, v, i, id) == IF i > Len(v) THEN f
    ELSE IF v[i] > 0
         THEN Fold(IF v[i] \in DOMAIN f THEN f ELSE [x \in DOMAIN f \union {v[i]} |-> IF x = v[i] THEN id ELSE f[x]], v, i + 1, id + 1)
         ELSE Fold([x \in DOMAIN f \ {0 - v[i]} |-> f[x]], v, i + 1, id)
Inserts(v) == Cardinality({i \in 1..Len(v) : v[i] > 0})
HistA == /\ Is("Hist") /\ ~tearing
         /\ tab' = Fold(tab, Ev.v, 1, Ev.next - Inserts(Ev.v))
         /\ cur' = -1 /\ UNCHANGED <<order, tearing>>

(* The shape, as lookups of every key traverse it: a search tree over exactly the
   stored nodes, which can be coloured to obey the red-black rules (and which the
   verifier of test builds finds to be coloured so) *)
Shape == [root |-> Ev.root, l |-> Ev.L, r |-> Ev.R]
Dump == /\ Is("Dump") /\ Query
        /\ Ev.deep = 0
        /\ IsWalk(InOrder(Shape, Ev.root, 121), TRUE)
        /\ P09 => /\ Colourable(Shape, 121) /\ Ev.ok = 1
                  /\ LogBound(Height(Shape, Ev.root, 121), N, 0)

(* Cursor movements. The generator only moves a cursor that is not stale. *)
CHead == Is("Head") /\ Ev.r = IdOf(First) /\ Ev.cur = IdOf(First) /\ MoveTo(First)
CTail == Is("Tail") /\ Ev.r = IdOf(Last) /\ Ev.cur = IdOf(Last) /\ MoveTo(Last)
LookEx == Is("LookEx") /\ LET k == IF Ev.k \in Keys THEN Ev.k ELSE 0 IN
          Ev.r = IdOf(k) /\ Ev.cur = IdOf(k) /\ MoveTo(k)
CurInit == Is("CurInit") /\ Ev.cur = 0 /\ MoveTo(0)
Move(op, nb) == /\ Is(op) /\ cur # -1
                /\ IF cur = 0 THEN Ev.r = 0 /\ Ev.cur = 0 /\ MoveTo(0)
                   ELSE LET k == nb IN
                        IF k = 0 THEN Ev.r = 0 /\ Ev.cur = tab[cur] /\ MoveTo(cur)
                        ELSE Ev.r = tab[k] /\ Ev.cur = tab[k] /\ MoveTo(k)
Nxt == Move("Nxt", Succ(cur))
Prv == Move("Prv", Pred(cur))

Fini == Is("Fini") /\ FiniSome(Ev.d, Ev.end = 1) /\ (Ev.end = 1 \/ Len(Ev.d) = Ev.want)

TraceNext == \/ Done /\ UNCHANGED av
             \/ Step /\ (Cmp \/ Ins \/ Rem \/ Look \/ Walk \/ WalkB \/ HistA \/ Dump \/ CHead \/ CTail \/ LookEx \/ CurInit \/ Nxt \/ Prv \/ Fini) /\ Obs
TraceTypeOK == cur \in Int /\ tearing \in BOOLEAN
=============================================================================
