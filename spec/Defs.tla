------------------------------- MODULE Defs -------------------------------
(* What the utility macros mean: on numbers (values of Wide) and on the layout of C *)
(* structures (System V x86-64 rules).                                              *)
EXTENDS Integers, Sequences, FiniteSets, Wide
MinOf(s) == CHOOSE x \in s : \A y \in s : Le(x, y)
MaxOf(s) == CHOOSE x \in s : \A y \in s : Le(y, x)
(* only for lo <= hi *)
Clamp(v, lo, hi) == IF Lt(v, lo) THEN lo ELSE IF Lt(hi, v) THEN hi ELSE v
Minus(x) == Sub(Zero, x)
Twice(x) == Add(x, x)
Abs(x) == IF Neg(x) THEN Minus(x) ELSE x
-----------------------------------------------------------------------------
(* A type is [size, align, members], members a sequence of types.  Offsets of members: *)
Up(n, a) == ((n + a - 1) \div a) * a
Prim(n) == [size |-> n, align |-> n, off |-> << >>]
Arr(n, t) == [t EXCEPT !.size = n * t.size]
MaxI(s) == CHOOSE x \in s : \A y \in s : y <= x
RECURSIVE Offs(_, _)
Offs(ms, at) == IF ms = << >> THEN << >> ELSE LET o == Up(at, Head(ms).align) IN <<o>> \o Offs(Tail(ms), o + Head(ms).size)
Struct(ms) == LET off == Offs(ms, 0) al == MaxI({ms[i].align : i \in DOMAIN ms}) IN
              [size |-> Up(off[Len(ms)] + ms[Len(ms)].size, al), align |-> al, off |-> off]
Packed(ms) == Struct([i \in DOMAIN ms |-> [ms[i] EXCEPT !.align = 1]])
Union(ms) == LET al == MaxI({ms[i].align : i \in DOMAIN ms}) IN
             [size |-> Up(MaxI({ms[i].size : i \in DOMAIN ms}), al), align |-> al, off |-> [i \in DOMAIN ms |-> 0]]
ch == Prim(1)  sh == Prim(2)  in == Prim(4)  dl == Prim(8)  ll == Prim(8)  ptr == Prim(8)
L1 == Struct(<<ch, in, sh, dl, Arr(3, ch), ll>>)
L2 == Struct(<<in, in>>)
L3 == Struct(<<ch, L2, Arr(3, L2), ptr>>)
L4 == Struct(<<sh, Union(<<ch, dl, Arr(5, in)>>), ch>>)
L5 == Packed(<<ch, in, sh, dl, ch>>)
L6 == Union(<<ch, in, Arr(2, dl)>>)
L7 == Struct(<<Struct(<<ch, L1>>), Arr(2, L3), in>>)
L8 == Struct(<<L2>>)
L9 == Struct(<<ch, Arr(70000, ch), sh, Arr(3000, L1), in>>)
L10 == Struct(<<in, Arr(16777217, ch), L2, Arr(33000, ch), sh>>)
L11 == Struct(<<L2, Arr(1000000001, ch), in, ch>>)
Layout == <<L1, L2, L3, L4, L5, L6, L7, L8, L9, L10, L11>>
=============================================================================
