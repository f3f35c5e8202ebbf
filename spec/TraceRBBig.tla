----------------------------- MODULE TraceRBBig -----------------------------
(* Histories of red-black trees (and sorted dictionaries) of up to 10^6 nodes, *)
(* judged against BigSet.  One event is a run of single operations of a kind;  *)
(* it reports how many calls were made, how many gave the result a set gives,  *)
(* and the largest number of comparisons one of them took.                     *)
EXTENDS TraceBase, BigSet
CONSTANT Prop
VARIABLES cur,      \* key under the cursor, 0 none, -1 stale
          tearing
av == <<big, cur, tearing>>
TraceInit == TBInit /\ BigInit /\ cur = 0 /\ tearing = FALSE
Set(a) == {a[i] : i \in 1..Len(a)}
P09 == Prop \in {"C09", "C14"}
(* comparisons are judged against the largest size the tree had during the run *)
Cost(n) == P09 => BigLog(Ev.mc, n, 2)
All(n) == Ev.n = n /\ Ev.good = n
Max2(a, b) == IF a > b THEN a ELSE b
Run(op) == Is(op) /\ ~tearing /\ cur' = -1 /\ UNCHANGED tearing /\ Cost(Max2(Size(big), Size(big'))) /\ Ev.e = (IF Size(big') = 0 THEN 1 ELSE 0)
BFill == Fill(Ev.top, Ev.m, Set(Ev.R)) /\ Run("BFill") /\ All(Size(big'))
BAdd == ~ (Ev.r \in big.R) /\ AddRes(Ev.r) /\ Run("BAdd") /\ All(Size(big') - Size(big))
BDel == DelRes(Ev.r) /\ Run("BDel") /\ All(Size(big) - Size(big'))
BCut == CutTo(Ev.at) /\ Run("BCut") /\ All(Size(big) - Size(big'))
BTop == TopTo(Ev.at) /\ Run("BTop") /\ All(Size(big) - Size(big'))
Quiet == ~tearing /\ UNCHANGED big /\ UNCHANGED tearing
(* all keys 1..Ev.n looked up, or inserted/removed without effect: hits are members found as stored *)
BLook == Is("BLook") /\ Quiet /\ UNCHANGED cur /\ Ev.wrong = 0
         /\ Ev.hit = Size(IF Ev.n < big.top THEN [big EXCEPT !.top = Ev.n] ELSE big) /\ Ev.hit + Ev.miss = Ev.n /\ Cost(Size(big))
(* inserting equal keys again and removing absent ones changes nothing *)
BDup == Is("BDup") /\ Quiet /\ UNCHANGED cur /\ Ev.wrong = 0 /\ Ev.hit = Size(big) /\ Ev.miss = Ev.n - Size(big) /\ Ev.n = big.top /\ Cost(Size(big))
BWalk == /\ Is("BWalk") /\ Quiet /\ UNCHANGED cur
         /\ Ev.n = Size(big)
         /\ Ev.first = (IF Ev.fwd = 1 THEN Least(big) ELSE Greatest(big)) /\ Ev.last = (IF Ev.fwd = 1 THEN Greatest(big) ELSE Least(big))
         /\ Len(Ev.gap) = Len(Ev.cnt)
         /\ \A i \in 1..Len(Ev.gap) : LET g == IF Ev.fwd = 1 THEN Ev.gap[i] ELSE 0 - Ev.gap[i] IN g \in Gaps(big) /\ Ev.cnt[i] = GapCount(big, g)
         /\ \A g \in Gaps(big) : GapCount(big, g) > 0 => \E i \in 1..Len(Ev.gap) : Ev.gap[i] = (IF Ev.fwd = 1 THEN g ELSE 0 - g)
BVer == Is("BVer") /\ Quiet /\ UNCHANGED cur /\ (P09 => Ev.ok = 1)
MoveTo(k) == Quiet /\ Ev.cur = k /\ cur' = k
BHead == Is("BHead") /\ MoveTo(Least(big)) /\ Ev.r = Least(big)
BTail == Is("BTail") /\ MoveTo(Greatest(big)) /\ Ev.r = Greatest(big)
BEx == Is("BEx") /\ LET k == IF Member(big, Ev.k) THEN Ev.k ELSE 0 IN MoveTo(k) /\ Ev.r = k
Move(op, nb) == Is(op) /\ cur # -1 /\ (IF cur = 0 THEN Ev.r = 0 /\ MoveTo(0) ELSE Ev.r = nb /\ MoveTo(IF nb = 0 THEN cur ELSE nb))
BNext == Move("BNext", Above(big, cur))
BPrev == Move("BPrev", Below(big, cur))
(* teardown: n nodes handed out, all different members; only a completed teardown can be judged as to which *)
BTear == /\ Is("BTear") /\ Ev.good = Ev.n /\ cur' = -1
         /\ IF Ev.end = 1 THEN Ev.total = Size(big) /\ Emptied /\ tearing' = FALSE
            ELSE Ev.n = Ev.want /\ Ev.total <= Size(big) /\ UNCHANGED big /\ tearing' = TRUE
TraceNext == \/ Done /\ UNCHANGED av
             \/ Step /\ CASE Is("BFill") -> BFill [] Is("BAdd") -> BAdd [] Is("BDel") -> BDel [] Is("BCut") -> BCut [] Is("BTop") -> BTop
                          [] OTHER -> (BLook \/ BDup \/ BWalk \/ BVer \/ BHead \/ BTail \/ BEx \/ BNext \/ BPrev \/ BTear)
TraceTypeOK == cur \in Int /\ tearing \in BOOLEAN
=============================================================================
