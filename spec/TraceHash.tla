----------------------------- MODULE TraceHash -----------------------------
EXTENDS TraceBase, Crc32
F == INSTANCE Fnv
VARIABLE acc         \* for chained hashing: what all pieces so far must hash to, kept as <<base, bytes>>
TraceInit == TBInit /\ acc = << >>
CrcE == Is("Crc") /\ UNCHANGED acc /\ Ev.guard = 1 /\ Ev.r = Crc(Ev.in)
(* n zero bytes, n = n[1] * 65536 + n[2] *)
CrcZ == Is("CrcZ") /\ UNCHANGED acc /\ Ev.r = X32(Zeros(Ones, Ev.n[1], Ev.n[2]), Ones)
(* the base of a chained call is either new or the result of the call before it *)
FnvE == /\ Is("Fnv") /\ Ev.guard = 1
        /\ Ev.r = F!Fnv(Ev.base, Ev.in)
        /\ IF Ev.chain = 0 THEN acc' = <<Ev.base, Ev.in>>
           ELSE /\ acc' = <<acc[1], acc[2] \o Ev.in>>
                /\ Ev.r = F!Fnv(acc[1], acc'[2])
FnvB == Is("Base") /\ UNCHANGED acc /\ Ev.r = F!Base(8 * Len(Ev.r))
FnvZ == Is("FnvZ") /\ UNCHANGED acc /\ Ev.r = F!FnvZeros(Ev.base, Ev.n)
(* runs: zero bytes (count in 16-bit digits, least first), then bytes *)
RECURSIVE CrcRuns(_, _)
CrcRuns(c, rs) == IF rs = << >> THEN c ELSE LET q == rs[1] IN CrcRuns(Run(Zeros(c, q.z[3] * 65536 + q.z[2], q.z[1]), q.s), Tail(rs))
CrcR == Is("CrcR") /\ UNCHANGED acc /\ Ev.r = X32(CrcRuns(Ones, Ev.runs), Ones)
RECURSIVE FnvRuns(_, _)
FnvRuns(h, rs) == IF rs = << >> THEN h ELSE LET q == rs[1] IN FnvRuns(F!Fnv(F!FnvZeros(h, q.z), q.s), Tail(rs))
FnvR == Is("FnvR") /\ UNCHANGED acc /\ Ev.r = FnvRuns(Ev.base, Ev.runs)
TraceNext == \/ Done /\ UNCHANGED acc
             \/ Step /\ (CrcE \/ CrcZ \/ FnvE \/ FnvB \/ FnvZ \/ CrcR \/ FnvR)
TraceTypeOK == l \in Nat
=============================================================================
