------------------------------ MODULE MCBase64 ------------------------------
(* The two halves of the specification are inverse on every short input. *)
EXTENDS Base64, TLC
CONSTANTS Bs, Cs, MaxB, MaxT
VARIABLE x
Opts == {[c62 |-> 43, c63 |-> 47, pad |-> p] : p \in {-1, 61}}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == x \in ({"b"} \X Opts \X Seqs(Bs, MaxB)) \union ({"t"} \X Opts \X Seqs(Cs, MaxT))
Next == UNCHANGED x
o == x[2]
NoPad == [o EXCEPT !.pad = -1]
Inverse == /\ Sane(o)
           /\ x[1] = "b" => Decode(o, Encode(o, x[3])) = x[3] /\ Decode(o, Encode(NoPad, x[3])) = x[3]
           /\ x[1] = "t" => LET d == Decode(o, x[3]) IN d # Invalid => x[3] \in {Encode(o, d), Encode(NoPad, d)}
=============================================================================
