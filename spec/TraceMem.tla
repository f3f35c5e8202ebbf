------------------------------ MODULE TraceMem ------------------------------
(* Blocks handed out by the chunk allocator (CAlloc) and by MALLOCA (AAlloc).     *)
EXTENDS TraceBase
VARIABLE ps          \* live pieces: [id, kind, blk, off, size]
TraceInit == TBInit /\ ps = {}
Apart(p) == \A q \in ps : q.kind = p.kind /\ q.blk = p.blk =>
               \/ p.off + p.size <= q.off /\ p.off # q.off
               \/ q.off + q.size <= p.off /\ p.off # q.off
ApartSized(p) == \A q \in ps : q.kind = p.kind /\ q.blk = p.blk /\ p.size > 0 /\ q.size > 0 => p.off + p.size <= q.off \/ q.off + q.size <= p.off
Piece == [id |-> Ev.id, kind |-> Ev.kind, blk |-> Ev.blk, off |-> Ev.off, size |-> Ev.size]
(* ---- chunk ---- *)
CInit == Is("CInit") /\ ps' = {} /\ Ev.al = 0
CAlloc == /\ Is("CAlloc") /\ Ev.intact = 1 /\ Ev.bad = 0 /\ Ev.fr = 0
          /\ IF Ev.r = 1
             THEN /\ Ev.huge = 0
                  /\ Ev.size > 0 => Ev.kind = 1 /\ Ev.off >= 0 /\ Ev.off + Ev.size <= Ev.cap
                  /\ ApartSized(Piece) /\ ps' = ps \union {Piece}
             ELSE (Ev.huge = 1 \/ Ev.hb = 1 \/ Ev.oom > 0) /\ UNCHANGED ps
CFini == Is("CFini") /\ Ev.ok = 1 /\ Ev.live = 0 /\ Ev.bad = 0 /\ Ev.intact = 1 /\ Ev.al = 0 /\ ps' = {}
(* ---- MALLOCA: kind 1 = heap, 2 = stack; sizes below thr - word on the stack, from thr on the heap ---- *)
AAlloc == /\ Is("AAlloc") /\ Ev.intact = 1 /\ Ev.bad = 0 /\ Ev.fr = 0
          /\ IF Ev.r = 1
             THEN /\ Ev.huge = 0 /\ Ev.aligned = 1
                  /\ Ev.kind \in {1, 2}
                  /\ Ev.kind = 1 => Ev.al = 1 /\ Ev.off >= 0 /\ Ev.off + Ev.size <= Ev.cap
                  /\ Ev.kind = 2 => Ev.al = 0
                  /\ (Ev.size >= Ev.thr => Ev.kind = 1) /\ (Ev.size + Ev.word < Ev.thr => Ev.kind = 2)
                  /\ Apart(Piece) /\ ps' = ps \union {Piece}
             ELSE /\ Ev.al = 0 /\ (Ev.huge = 1 \/ (Ev.oom > 0 /\ Ev.size + Ev.word >= Ev.thr)) /\ UNCHANGED ps
(* releasing a slot that holds a block, or NULL *)
AFree == /\ Is("AFree") /\ Ev.bad = 0 /\ Ev.intact = 1 /\ Ev.al = 0
         /\ LET P == {p \in ps : p.id = Ev.id} IN
            /\ Ev.fr = Cardinality({p \in P : p.kind = 1})
            /\ Ev.gone = (IF \E p \in P : p.kind = 1 THEN 1 ELSE 0)
            /\ ps' = ps \ P
AEnd == Is("AEnd") /\ Ev.live = Cardinality({p \in ps : p.kind = 1}) /\ Ev.intact = 1 /\ Ev.bad = 0 /\ ps' = {}
TraceNext == \/ Done /\ UNCHANGED ps
             \/ Step /\ (CInit \/ CAlloc \/ CFini \/ AAlloc \/ AFree \/ AEnd)
TraceTypeOK == l \in Nat
=============================================================================
