------------------------------ MODULE MemChunk ------------------------------
(* The chunk allocator's algorithm, in machine arithmetic: sizes are numbers   *)
(* modulo W.  A block is a header of H bytes and `cap' bytes for pieces.        *)
(* Invariants: live pieces are disjoint, inside their block and off its header. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, H, BSizes, Sizes, MaxOps, HeapMax
VARIABLES bs, list, free, pieces, nid, steps, path
vars == <<bs, list, free, pieces, nid, steps, path>>
Init == /\ bs \in BSizes /\ list = << >> /\ free = bs /\ pieces = {} /\ nid = 1 /\ steps = 0
        /\ path = "ci " \o ToString(bs)
Op(s) == steps < MaxOps /\ steps' = steps + 1 /\ path' = path \o ";" \o s
(* malloc(n) gives a block with n bytes, or nothing *)
Piece(b, o, n) == pieces' = pieces \union {[blk |-> b, off |-> o, size |-> n]}
Null == UNCHANGED <<bs, list, free, pieces, nid>>
Hd == list[1]
Alloc(n, fails) ==
    /\ Op((IF fails THEN "k 1;" ELSE "") \o "a " \o ToString(n))
    /\ IF list = << >> \/ n > bs - free
       THEN LET big == n > bs \div 4
                want == IF big THEN n ELSE bs
                all == (H + want) % W
            IN IF want > W - 1 - H \/ fails \/ all > HeapMax THEN Null
               ELSE LET blk == [id |-> nid, cap |-> all - H] IN
                    /\ nid' = nid + 1 /\ UNCHANGED bs
                    /\ IF big
                       THEN /\ list' = IF list = << >> THEN <<blk>> ELSE <<Hd, blk>> \o Tail(list)
                            /\ free' = IF list = << >> THEN bs ELSE free
                            /\ Piece(nid, 0, n)
                       ELSE /\ list' = <<blk>> \o list /\ free' = n /\ Piece(nid, 0, n)
       ELSE ~fails /\ free' = (free + n) % W /\ Piece(Hd.id, free, n) /\ UNCHANGED <<bs, list, nid>>
Fini == /\ Op("cf") /\ list # << >> /\ list' = << >> /\ pieces' = {} /\ UNCHANGED <<bs, free, nid>>
Next == (\E n \in Sizes, f \in BOOLEAN : Alloc(n, f)) \/ Fini

Cap(b) == LET i == CHOOSE i \in 1..Len(list) : list[i].id = b IN list[i].cap
InBlock == \A p \in pieces : (\E i \in 1..Len(list) : list[i].id = p.blk) /\ (p.size > 0 => p.off >= 0 /\ p.off + p.size <= Cap(p.blk))
Disjoint == \A p, q \in pieces : p # q /\ p.blk = q.blk /\ p.size > 0 /\ q.size > 0 => p.off + p.size <= q.off \/ q.off + q.size <= p.off
FreeOK == free <= bs
Inv == InBlock /\ Disjoint /\ FreeOK
View == <<bs, list, free, pieces, steps>>
PrintPath == PrintT("@;" \o path')
=============================================================================
