------------------------------ MODULE TraceVBig ------------------------------
(* Histories of dictionaries of up to 10^6 keys, judged against BigSet.  The   *)
(* keys are numbers (the driver renders them so that the comparator orders     *)
(* them numerically, or backwards when rev = 1).  One event is a run of single *)
(* operations of a kind; it reports how many calls were made, how many gave    *)
(* the result a map gives, and the most comparator calls one of them took.     *)
(* runs: the order of insertion, as successive ascending (or descending) runs, *)
(* each with the remainders it still contains.                                 *)
EXTENDS TraceBase, BigSet
CONSTANT Prop
VARIABLES ord, rev, runs, dir     \* dir: 1, -1, or 0 when insertion did not follow one direction
vbv == <<ord, rev, runs, dir>>
av == <<big, vbv>>
TraceInit == TBInit /\ BigInit /\ ord = 0 /\ rev = 0 /\ runs = << >> /\ dir = 0
Set(a) == {a[i] : i \in 1..Len(a)}
P14 == Prop = "C14"
P13 == Prop = "C13"
Cost(n) == P14 => BigLog(Ev.mc, n, 2)
All(n) == Ev.n = n /\ Ev.good = n
Max2(a, b) == IF a > b THEN a ELSE b
Run == /\ Cost(Max2(Size(big), Size(big'))) /\ Ev.z = Size(big') /\ Ev.e = (IF Ev.z = 0 THEN 1 ELSE 0)
       /\ UNCHANGED ord /\ UNCHANGED rev
Way(w) == IF w = 0 THEN 1 ELSE IF w = 1 THEN -1 ELSE 0
Nonempty(q) == SelectSeq(q, LAMBDA x : x # {})
BIni == Is("BIni") /\ Emptied /\ Ev.z = 0 /\ ord' = Ev.o /\ rev' = Ev.rev /\ runs' = << >> /\ dir' = 0
BFill == Is("BFill") /\ Fill(Ev.top, Ev.m, Set(Ev.R)) /\ Run /\ All(Size(big')) /\ runs' = Nonempty(<<Set(Ev.R)>>) /\ dir' = Way(Ev.w)
BAdd == /\ Is("BAdd") /\ ~ (Ev.r \in big.R) /\ AddRes(Ev.r) /\ Run /\ All(Size(big') - Size(big))
        /\ runs' = Append(runs, {Ev.r}) /\ dir' = (IF runs = << >> THEN Way(Ev.w) ELSE IF dir = Way(Ev.w) THEN dir ELSE 0)
Less == Run /\ All(Size(big) - Size(big')) /\ UNCHANGED dir
BDel == Is("BDel") /\ DelRes(Ev.r) /\ runs' = Nonempty([i \in 1..Len(runs) |-> runs[i] \ {Ev.r}]) /\ Less
BCut == Is("BCut") /\ CutTo(Ev.at) /\ UNCHANGED runs /\ Less
BTop == Is("BTop") /\ TopTo(Ev.at) /\ UNCHANGED runs /\ Less
BCln == Is("BCln") /\ Emptied /\ runs' = << >> /\ UNCHANGED dir /\ Run
Quiet == UNCHANGED av
BLook == Is("BLook") /\ Quiet /\ Run /\ Ev.wrong = 0 /\ Ev.hit = Size(big) /\ Ev.miss = Ev.top - Ev.hit /\ Ev.top = big.top
(* adding keys again, removing absent ones *)
BDup == Is("BDup") /\ Quiet /\ Run /\ Ev.wrong = 0 /\ Ev.hit = Size(big) /\ Ev.miss = Ev.top - Ev.hit /\ Ev.top = big.top
(* a run listed completely in direction d *)
Listed(s, g, d) ==
    /\ g.n = Size(s)
    /\ g.f = (IF d = 1 THEN Least(s) ELSE Greatest(s)) /\ g.l = (IF d = 1 THEN Greatest(s) ELSE Least(s))
    /\ \A i \in 1..Len(g.g) : d * g.g[i] \in Gaps(s) /\ g.c[i] = GapCount(s, d * g.g[i])
    /\ \A x \in Gaps(s) : GapCount(s, x) > 0 => \E i \in 1..Len(g.g) : g.g[i] = d * x
Part(i) == [big EXCEPT !.R = runs[i]]
Clear == big.top - big.cut >= 2 * big.m      \* runs cannot be mistaken for one another
Stopped(total) == /\ Ev.wrong = 0
                  /\ IF Is("BKeys") THEN Ev.n = Ev.r /\ Ev.r = (IF Ev.stop < total THEN Ev.stop ELSE total)
                     ELSE LET st == Ev.ret # 0 /\ Ev.stop >= 1 /\ Ev.stop <= total IN
                          Ev.n = (IF st THEN Ev.stop ELSE total) /\ Ev.r = (IF st THEN Ev.ret ELSE 0)
BWlkS == /\ (Is("BWlk") \/ Is("BKeys")) /\ Ev.m = 0 /\ Quiet /\ Stopped(Size(big)) /\ Ev.dir = (IF rev = 1 THEN -1 ELSE 1)
         /\ Len(Ev.seg) <= 1 /\ Ev.over = 0
         /\ Ev.n = Size(big) /\ Ev.n > 0 => Listed(big, Ev.seg[1], Ev.dir)
         /\ Ev.n > 0 => Ev.seg[1].f = (IF rev = 1 THEN Greatest(big) ELSE Least(big))
BWlkO == /\ (Is("BWlk") \/ Is("BKeys")) /\ Ev.m = 1 /\ Quiet
         /\ IF ord = 0 THEN Ev.n = 0 /\ Ev.r = (IF Is("BKeys") THEN 0 ELSE -1)
            ELSE /\ Stopped(Size(big))
                 /\ (Ev.n = Size(big) /\ dir # 0 /\ dir = Ev.dir /\ Clear) =>
                       /\ Len(Ev.seg) = Len(runs) /\ Ev.over = 0
                       /\ \A i \in 1..Len(runs) : Listed(Part(i), Ev.seg[i], dir)
BVer == Is("BVer") /\ Quiet /\ (P14 => Ev.ok = 1)
BFin == Is("BFin") /\ Ev.lv = 0 /\ Emptied /\ runs' = << >> /\ dir' = 0 /\ ord' = 0 /\ rev' = 0
End == Is("End") /\ Ev.lv = 0 /\ Emptied /\ runs' = << >> /\ dir' = 0 /\ ord' = 0 /\ rev' = 0
TraceNext == \/ Done /\ UNCHANGED av
             \/ Step /\ CASE Is("BIni") -> BIni [] Is("BFill") -> BFill [] Is("BAdd") -> BAdd [] Is("BDel") -> BDel [] Is("BCut") -> BCut [] Is("BTop") -> BTop
                          [] Is("BCln") -> BCln [] Is("BFin") -> BFin [] Is("End") -> End
                          [] OTHER -> (BLook \/ BDup \/ BWlkS \/ BWlkO \/ BVer)
TraceTypeOK == dir \in -1..1 /\ ord \in 0..1
=============================================================================
