------------------------------ MODULE MCDefs ------------------------------
(* The laws the macros' meanings obey. *)
EXTENDS Defs, TLC
CONSTANTS Small, Edge
PM(s) == s \union {-n : n \in s}
Vals == {W(n) : n \in PM(Small)} \union {Add(<<0, 127, 16777215>>, W(n)) : n \in PM(Edge)} \union {Sub(<<32767, 16777215, 16777215>>, W(n)) : n \in Edge}
        \union {Add(<<-32768, 0, 0>>, W(n)) : n \in Edge} \union {Add(<<-1, 16777088, 0>>, W(n)) : n \in PM(Edge)}
VARIABLES a, b, c
Init == a \in Vals /\ b \in Vals /\ c \in Vals
Next == UNCHANGED <<a, b, c>>
Order == /\ MinOf({a, b}) = MinW(a, b) /\ MinOf({a, b, c}) = MinW(MinW(a, b), c) /\ MaxOf({a, b, c}) = MaxOf({MaxOf({a, b}), c})
         /\ Le(MinOf({a, b, c}), MaxOf({a, b, c})) /\ (Le(a, b) \/ Le(b, a)) /\ (Le(a, b) /\ Le(b, c) => Le(a, c))
Clamps == Le(b, c) => LET v == Clamp(a, b, c) IN /\ Le(b, v) /\ Le(v, c) /\ (Le(b, a) /\ Le(a, c) => v = a) /\ v = MinOf({MaxOf({a, b}), c}) /\ v = MaxOf({MinOf({a, c}), b}) /\ Clamp(v, b, c) = v
Absolute == /\ (~Neg(Abs(a)) \/ a = <<-32768, 0, 0>>) /\ Abs(a) = Abs(Minus(a)) /\ (Abs(a) = a \/ Abs(a) = Minus(a)) /\ Minus(Minus(a)) = a
Layouts == \A i \in DOMAIN Layout : LET y == Layout[i] IN y.size % y.align = 0 /\ (\A k \in DOMAIN y.off : y.off[k] < y.size) /\ (i \notin {6} => \A k \in DOMAIN y.off : k > 1 => y.off[k] > y.off[k - 1])
Inv == Order /\ Clamps /\ Absolute /\ Layouts
=============================================================================
