------------------------------ MODULE TraceSBig ------------------------------
(* Histories of value arrays of up to 10^6 elements, judged against BigSeq.    *)
(* Elements are numbered values; a listing reports the maximal runs of         *)
(* consecutive numbers.                                                        *)
EXTENDS TraceBase, BigSeq
VARIABLE q
TraceInit == TBInit /\ q = << >>
Obs == Ev.z = Length(q')
Ini == Is("SIni") /\ q' = << >> /\ Obs
(* n single insertions which together put v .. v+n-1 at index i; good: those that returned the new element in its place *)
Ins == Is("SIns") /\ Ev.i <= Length(q) /\ Ev.good = Ev.n /\ q' = Insert(q, Ev.i, Ev.v, Ev.n) /\ Obs
Rng == Is("SRng") /\ (IF Ev.i <= Length(q) /\ Ev.i + Ev.c <= Length(q) THEN Ev.good = Ev.n /\ q' = Remove(q, Ev.i, Ev.c) ELSE Ev.good = 0 /\ q' = q) /\ Obs
Acl == Is("SAcl") /\ q' = << >> /\ Obs
Get == Is("SGet") /\ q' = q /\ Obs /\ (IF Ev.i < Length(q) THEN Ev.r = 1 /\ Ev.v = Item(q, Ev.i) ELSE Ev.r = 0)
(* "[i]", "[-i]" (counted from the end), "[+i]", "//[000i]/" *)
Pth == /\ Is("SPth") /\ q' = q /\ Obs
       /\ LET n == Length(q) IN
          IF Ev.y = 1 THEN (IF Ev.i \in 1..n THEN Ev.r = 1 /\ Ev.v = Item(q, n - Ev.i) ELSE Ev.r = 0)
          ELSE IF Ev.i < n THEN Ev.r = 1 /\ Ev.v = Item(q, Ev.i) ELSE Ev.r = 0
(* a path of n steps: one container inside the other, each the only child, the last one new; every prefix leads to its step *)
Deep == Is("SDeep") /\ q' = q /\ Obs /\ Ev.ok = 1 /\ Ev.depth = Ev.n /\ Ev.same = Ev.n
(* of the keys k^n, k^(n-1), k^n x (numbers 1, 2, 3) a path with one step finds just the one named (2: k^(n-1), 3: k^n x, 4: k^(n+1), missing, 5: k^(n+5), built) *)
LKey == Is("SLKey") /\ q' = q /\ Obs /\ Ev.f = (IF Ev.y \in {0, 1, 6, 7} THEN 1 ELSE IF Ev.y = 2 THEN 2 ELSE IF Ev.y = 3 THEN 3 ELSE IF Ev.y = 4 THEN 0 ELSE 5)
Lst == /\ Is("SLst") /\ q' = q /\ Obs /\ Ev.wrong = 0
       /\ Len(Ev.s) = Len(q) /\ \A i \in 1..Len(q) : Ev.s[i] = q[i].s /\ Ev.c[i] = q[i].n
End == Is("End") /\ Ev.lv = 0 /\ q' = << >>
TraceNext == (Done /\ UNCHANGED q) \/ (Step /\ (Ini \/ Ins \/ Rng \/ Acl \/ Get \/ Pth \/ Deep \/ LKey \/ Lst \/ End))
TraceTypeOK == Len(q) >= 0
=============================================================================
