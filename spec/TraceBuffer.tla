---------------------------- MODULE TraceBuffer ----------------------------
EXTENDS TraceBase, Buffer
CONSTANT Prop        \* C01 contents, C02 capacity and failures, C03 stack, C04 arrays
TraceInit == TBInit /\ BInit
P02 == Prop = "C02"
Pat(seed, n) == [i \in 1..n |-> (seed + 7 * (i - 1)) % 251]
B == Ev.b
W == IF "w" \in DOMAIN Ev THEN Ev.w ELSE 1

Cnt(P(_)) == Cardinality({b \in I : P(b)})
Obs == /\ Ev.op # "End" => /\ Ev.size * W = Len(s'[B])
                           /\ Ev.e = (IF s'[B] = << >> THEN 1 ELSE 0)
       /\ P02 => /\ Ev.bad = 0
                 /\ Ev.live >= Cnt(LAMBDA b : s'[b] # << >>)
                 /\ Ev.live <= Cnt(LAMBDA b : blk'[b] = "maybe")

(* An addition of n bytes d at off: within the room it must succeed without any  *)
(* allocation; otherwise it may fail only for lack of memory, changing nothing.  *)
Adding(off, d) == IF Ev.r = 0
                  THEN /\ InsertOk(B, off, d)
                       /\ (P02 /\ Len(d) <= room[B] /\ Len(d) > 0) => Ev.al = 0
                  ELSE /\ Ev.r = -1 /\ Ev.oom > 0 /\ InsertFail(B, Len(d))
Ins == Is("Ins") /\ Adding(Ev.off, Pat(Ev.seed, Ev.n))
Push == Is("Push") /\ Adding(Len(s[B]), Ev.v)
AIns == Is("AIns") /\ Adding(Ev.off * Ev.w, Ev.v)
AInsN == Is("AInsN") /\ Adding(Ev.off * Ev.w, Pat(Ev.seed, Ev.n * Ev.w))

Rem == Is("Rem") /\ Remove(B, Ev.off, Ev.n)
ARem == Is("ARem") /\ Remove(B, Ev.off * Ev.w, Ev.n * Ev.w)
Clr == Is("Clr") /\ Remove(B, 0, Len(s[B]))
Top(n) == SubSeq(s[B], Len(s[B]) - n + 1, Len(s[B]))
Pop == Is("Pop") /\ Ev.v = Top(Len(Ev.v)) /\ Remove(B, Len(s[B]) - Len(Ev.v), Len(Ev.v))
PopRawA == Is("PopRaw") /\ Ev.v = Top(Len(Ev.v)) /\ PopRaw(B, Len(Ev.v))
Peek == Is("Peek") /\ Ev.v = Top(Len(Ev.v)) /\ Refused
All == Is("SAll") /\ Ev.v = s[B] /\ Ev.same = 1 /\ Refused
Win == Is("Win") /\ Ev.off + Len(Ev.v) <= Len(s[B]) /\ Ev.v = SubSeq(s[B], Ev.off + 1, Ev.off + Len(Ev.v)) /\ Refused
AAll == Is("AAll") /\ Ev.v = s[B] /\ Refused
AGet == Is("AGet") /\ Ev.v = SubSeq(s[B], Ev.off * Ev.w + 1, (Ev.off + 1) * Ev.w) /\ Refused
ASet == Is("ASet") /\ Overwrite(B, Ev.off * Ev.w, Ev.v)

Rsv == /\ Is("Rsv")
       /\ IF Ev.r = 0 THEN ReserveOk(B, Ev.n)
          ELSE Ev.r = -1 /\ Ev.oom > 0 /\ Refused
Rea == /\ Is("Rea")
       /\ IF Ev.r = 0 THEN ReallocOk(B, Ev.n)
          ELSE Ev.r = -1 /\ Ev.oom > 0 /\ Refused
(* A length that cannot be represented or obtained. *)
Huge == Is("Huge") /\ Ev.r = -1 /\ Refused
Shr == Is("Shr") /\ Shrink(B)
Swp == Is("Swp") /\ Swap /\ Ev.s2 = Len(s'[2])
Acq == Is("Acq") /\ Ev.n = Len(s[B]) /\ Ev.v = s[B] /\ Release(B)
AAcq == Is("AAcq") /\ Ev.n * Ev.w = Len(s[B]) /\ Ev.v = s[B] /\ Release(B)
End == /\ Is("End")
       /\ s' = [b \in I |-> << >>] /\ room' = [b \in I |-> 0] /\ blk' = [b \in I |-> "no"]

TraceNext == \/ Done /\ UNCHANGED bvars
             \/ Step /\ (Ins \/ Push \/ AIns \/ AInsN \/ Rem \/ ARem \/ Clr \/ Pop \/ PopRawA \/ Peek \/ Win \/ All \/ AAll \/ AGet \/ ASet
                         \/ Rsv \/ Rea \/ Huge \/ Shr \/ Swp \/ Acq \/ AAcq \/ End) /\ Obs
TraceTypeOK == TypeOK
=============================================================================
