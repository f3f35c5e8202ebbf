------------------------------ MODULE MCCrc32 ------------------------------
(* The specification's fast forms agree with the textbook definition. *)
EXTENDS Crc32, TLC
CONSTANTS Bs, MaxL, MaxZ
VARIABLE x
Init == x = << >>
Next == \/ x = << >> /\ \E b \in 0..255 : x' = <<b>>
        \/ x # << >> /\ Len(x) < MaxL /\ (\A i \in 1..Len(x) : x[i] \in Bs) /\ \E b \in Bs : x' = Append(x, b)
Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
ASSUME Crc(Digits) = <<52212, 14630>>        \* cbf4 3926
Definition == Crc(x) = Remainder(x)
TableStep == \A c \in {Ones, Run(Ones, x), <<4660, 43981>>} : \A b \in {0, 1, 85, 128, 255} : ByteStep(c, b) = ByteDef(c, b)
(* appending the checksum, low byte first, always leaves the same residue *)
Residue == LET c == Crc(x) IN Crc(x \o <<c[2] % 256, c[2] \div 256, c[1] % 256, c[1] \div 256>>) = <<8516, 57116>>      \* 2144 df1c
ZeroRuns == (\A i \in 1..Len(x) : x[i] \in Bs) /\ Len(x) <= 1 => \A n \in 0..MaxZ : Zeros(Run(Ones, x), 0, n) = Run(Run(Ones, x), [i \in 1..n |-> 0])
Split == \A k \in 0..Len(x) : Run(Run(Ones, SubSeq(x, 1, k)), SubSeq(x, k + 1, Len(x))) = Run(Ones, x)
Inv == Definition /\ TableStep /\ Residue /\ ZeroRuns /\ Split
=============================================================================
