----------------------------- MODULE TraceHTBig -----------------------------
(* Histories of hash tables of up to 10^6 nodes, judged against BigSet.  One  *)
(* event is a run of single operations of a kind; it reports how many calls   *)
(* were made and how many gave the result a map gives (the very node stored   *)
(* under the key), and the library's memory.                                  *)
EXTENDS TraceBase, BigSet
CONSTANT Prop
TraceInit == TBInit /\ BigInit
Set(a) == {a[i] : i \in 1..Len(a)}
All(n) == Ev.n = n /\ Ev.good = n
Obs == /\ Ev.e = (IF Size(big') = 0 THEN 1 ELSE 0)
       /\ Prop = "C06" => Ev.bad = 0 /\ (Size(big') = 0 => Ev.live = 0)
BFill == Fill(Ev.top, Ev.m, Set(Ev.R)) /\ All(Size(big')) /\ Obs
BAdd == ~ (Ev.r \in big.R) /\ AddRes(Ev.r) /\ All(Size(big') - Size(big)) /\ Obs
BDel == DelRes(Ev.r) /\ All(Size(big) - Size(big')) /\ Obs
BCut == CutTo(Ev.at) /\ All(Size(big) - Size(big')) /\ Obs
BTop == TopTo(Ev.at) /\ All(Size(big) - Size(big')) /\ Obs
BLook == UNCHANGED big /\ Ev.wrong = 0 /\ Ev.n = big.top /\ Ev.hit = Size(big) /\ Ev.miss = Ev.n - Size(big)
(* every node goes to the destructor once, if there is one *)
BFin == Emptied /\ (Prop = "C06" => All(IF Ev.dtor = 1 THEN Size(big) ELSE 0)) /\ Obs
TraceNext == \/ Done /\ UNCHANGED big
             \/ Step /\ CASE Is("BFill") -> BFill [] Is("BAdd") -> BAdd [] Is("BDel") -> BDel [] Is("BCut") -> BCut [] Is("BTop") -> BTop
                          [] Is("BLook") \/ Is("BDup") -> BLook [] Is("BFin") -> BFin
                          [] OTHER -> FALSE
TraceTypeOK == big.cut \in Nat
=============================================================================
