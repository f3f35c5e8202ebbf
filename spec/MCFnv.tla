------------------------------- MODULE MCFnv -------------------------------
EXTENDS Fnv, TLC
CONSTANTS Bs, MaxL
VARIABLE x
Init == x \in {32, 64} \X {<< >>}
Next == Len(x[2]) < MaxL /\ \E b \in Bs : x' = <<x[1], Append(x[2], b)>>
FooBar == <<102, 111, 111, 98, 97, 114>>
ASSUME Fnv(Base(32), FooBar) = <<104, 249, 156, 191>> /\ Fnv(Base(64), FooBar) = <<232, 103, 57, 247, 113, 65, 148, 133>>
W == x[1]
(* schoolbook multiplication by adding shifted copies *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, c) == IF k > Len(a) THEN << >> ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddFrom(a, b, k + 1, s \div 256)
Add(a, b) == AddFrom(a, b, 1, 0)
BitOf(b, i) == (b[i \div 8 + 1] \div (2 ^ (i % 8))) % 2
RECURSIVE MulAdd(_, _, _)
MulAdd(a, b, i) == IF i = W THEN [k \in 1..(W \div 8) |-> 0] ELSE LET r == MulAdd(Add(a, a), b, i + 1) IN IF BitOf(b, i) = 1 THEN Add(a, r) ELSE r
H == Fnv(Base(W), x[2])
MulOK == Mul(H, Prime(W)) = MulAdd(H, Prime(W), 0) /\ Mul(H, H) = MulAdd(H, H, 0)
Split == \A k \in 0..Len(x[2]) : Fnv(Fnv(Base(W), SubSeq(x[2], 1, k)), SubSeq(x[2], k + 1, Len(x[2]))) = H
ZerosOK == \A n \in 0..20 : FnvZeros(H, <<n, 0>>) = Fnv(H, [i \in 1..n |-> 0])
Inv == MulOK /\ Split /\ ZerosOK
=============================================================================
