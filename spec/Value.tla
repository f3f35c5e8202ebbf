------------------------------- MODULE Value -------------------------------
(* Abstract specification of data/value: trees of nulls, scalars, strings,    *)
(* arrays and dictionaries.  A node is a record with                          *)
(*   t   type code (0 null, 1 bool, 2..7 numbers, 8 string, 9 array, 10 dict) *)
(*   b   heap blocks this node itself owns                                    *)
(*   new (null)          the "just added, never initialised" flag             *)
(*   d   (scalar/string) the stored bytes                                     *)
(*   a   (array)         elements                                             *)
(*   k, v, e (dict)      keys in insertion order, their values, the blocks    *)
(*                       each entry owns;  c comparator, o maintains order    *)
EXTENDS Naturals, Integers, Sequences

Null == [t |-> 0, new |-> 0, b |-> 0]
New  == [t |-> 0, new |-> 1, b |-> 0]
Scalar(t, d, b) == [t |-> t, d |-> d, b |-> b]
Arr(b) == [t |-> 9, a |-> << >>, b |-> b]
Dict(c, o, b) == [t |-> 10, k |-> << >>, v |-> << >>, e |-> << >>, c |-> c, o |-> o, b |-> b]
IsNew(n) == n.t = 0 /\ n.new = 1

-----------------------------------------------------------------------------
(* Key orders *)
Lower(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
RECURSIVE LexFrom(_, _, _, _)
LexFrom(x, y, i, low) ==
    IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
    ELSE IF i > Len(y) THEN 1
    ELSE LET p == IF low THEN Lower(x[i]) ELSE x[i]
             q == IF low THEN Lower(y[i]) ELSE y[i]
         IN IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE LexFrom(x, y, i + 1, low)
Lex(x, y) == LexFrom(x, y, 1, FALSE)
First(x) == IF x = << >> THEN -1 ELSE x[1]
Cmp(c, x, y) == CASE c = 0 -> Lex(x, y)
                  [] c = 1 -> Lex(y, x)
                  [] c = 2 -> IF Len(x) # Len(y) THEN Len(x) - Len(y) ELSE Lex(x, y)
                  [] c = 3 -> LexFrom(x, y, 1, TRUE)
                  [] c = 4 -> First(x) - First(y)
SameKey(c, x, y) == IF c <= 2 THEN x = y ELSE Cmp(c, x, y) = 0
RECURSIVE FindFrom(_, _, _)
FindFrom(n, key, i) == IF i > Len(n.k) THEN 0 ELSE IF SameKey(n.c, n.k[i], key) THEN i ELSE FindFrom(n, key, i + 1)
Find(n, key) == FindFrom(n, key, 1)

-----------------------------------------------------------------------------
(* Reaching and replacing a node; a step is [i |-> index] or [k |-> key] *)
IsIx(st) == "i" \in DOMAIN st
Has1(n, st) == IF IsIx(st) THEN n.t = 9 /\ st.i < Len(n.a) ELSE n.t = 10 /\ Find(n, st.k) # 0
Down(n, st) == IF IsIx(st) THEN n.a[st.i + 1] ELSE n.v[Find(n, st.k)]
RECURSIVE Has(_, _), At(_, _), Upd(_, _, _)
Has(n, p) == IF p = << >> THEN TRUE ELSE IF Has1(n, p[1]) THEN Has(Down(n, p[1]), Tail(p)) ELSE FALSE
At(n, p) == IF p = << >> THEN n ELSE At(Down(n, p[1]), Tail(p))
Upd(n, p, w) == IF p = << >> THEN w
                ELSE IF IsIx(p[1]) THEN [n EXCEPT !.a[p[1].i + 1] = Upd(@, Tail(p), w)]
                ELSE [n EXCEPT !.v[Find(n, p[1].k)] = Upd(@, Tail(p), w)]

(* Blocks owned by a whole subtree *)
RECURSIVE Cost(_), CostSeq(_, _), SumFrom(_, _)
SumFrom(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumFrom(q, i + 1)
CostSeq(q, i) == IF i > Len(q) THEN 0 ELSE Cost(q[i]) + CostSeq(q, i + 1)
Cost(n) == n.b + (CASE n.t = 9 -> CostSeq(n.a, 1) [] n.t = 10 -> SumFrom(n.e, 1) + CostSeq(n.v, 1) [] OTHER -> 0)

-----------------------------------------------------------------------------
(* Array edits *)
InsertAt(n, i) == [n EXCEPT !.a = SubSeq(n.a, 1, i) \o <<New>> \o SubSeq(n.a, i + 1, Len(n.a))]
RemoveRange(n, i, c) == [n EXCEPT !.a = SubSeq(n.a, 1, i) \o SubSeq(n.a, i + c + 1, Len(n.a))]
(* Dictionary edits *)
Drop(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
AddKey(n, key, cost) == [n EXCEPT !.k = Append(n.k, key), !.v = Append(n.v, New), !.e = Append(n.e, cost)]
DelKey(n, j) == [n EXCEPT !.k = Drop(n.k, j), !.v = Drop(n.v, j), !.e = Drop(n.e, j)]
Emptied(n) == IF n.t = 9 THEN [n EXCEPT !.a = << >>] ELSE [n EXCEPT !.k = << >>, !.v = << >>, !.e = << >>]

-----------------------------------------------------------------------------
(* Paths.  Steps: [k |-> key], [g |-> 1 | -1 | 0 | 9, n |-> number]; g = 0 is "[]", g = 9 encloses
   something that is no number: a step nothing can take. *)
SL == 47  OB == 91  CB == 93
CapN == 100000000
RECURSIVE SkipSlash(_, _), KeyEnd(_, _), Number(_, _, _), DigitsEnd(_, _)
SkipSlash(q, i) == IF i <= Len(q) /\ q[i] = SL THEN SkipSlash(q, i + 1) ELSE i
KeyEnd(q, i) == IF i > Len(q) \/ q[i] = SL \/ q[i] = OB THEN i ELSE KeyEnd(q, i + 1)
Digit(x) == x >= 48 /\ x <= 57
DigitsEnd(q, i) == IF i <= Len(q) /\ Digit(q[i]) THEN DigitsEnd(q, i + 1) ELSE i
Number(q, i, acc) == IF i > Len(q) \/ ~Digit(q[i]) THEN acc
                     ELSE Number(q, i + 1, IF acc >= CapN THEN CapN ELSE acc * 10 + (q[i] - 48))
RECURSIVE Closing(_, _)
Closing(q, i) == IF i > Len(q) \/ q[i] \in {SL, OB, CB} THEN i ELSE Closing(q, i + 1)
Malformed == <<[bad |-> 1]>>
Never == [g |-> 9, n |-> 0]
RECURSIVE Parse(_, _)
Parse(q, i0) ==
    LET i == SkipSlash(q, i0) IN
    IF i > Len(q) THEN << >>
    ELSE IF q[i] = OB THEN
        LET signed == i + 1 <= Len(q) /\ q[i + 1] \in {43, 45}
            from == IF signed THEN i + 2 ELSE i + 1
            to == DigitsEnd(q, from)
            close == Closing(q, i + 1)
            junk == /\ close <= Len(q) /\ q[close] = CB
                    /\ (IF close = Len(q) THEN TRUE ELSE q[close + 1] \in {SL, OB})
                    /\ \E j \in from..(close - 1) : ~Digit(q[j])
            ok == /\ to <= Len(q) /\ q[to] = CB
                  /\ (IF to >= Len(q) THEN TRUE ELSE q[to + 1] \in {SL, OB})
                  /\ (signed => to > from)
            step == IF to = from THEN [g |-> 0, n |-> 0]
                    ELSE [g |-> IF signed /\ q[i + 1] = 45 THEN -1 ELSE 1, n |-> Number(q, from, 0)]
            rest == IF ok THEN Parse(q, to + 1) ELSE IF junk THEN Parse(q, close + 1) ELSE Malformed
        IN IF rest = Malformed THEN Malformed ELSE <<IF ok THEN step ELSE Never>> \o rest
    ELSE LET to == KeyEnd(q, i)
             key == SubSeq(q, i, to - 1)
             rest == Parse(q, to)
         IN IF rest = Malformed \/ (\E j \in 1..Len(key) : key[j] = CB) THEN Malformed ELSE <<[k |-> key]>> \o rest
IsKey(s) == "k" \in DOMAIN s
(* the array index a bracket step denotes for an array of z elements, or -1 *)
Index(s, z) == IF s.g = 1 /\ s.n < z THEN s.n ELSE IF s.g < 0 /\ s.n > 0 /\ s.n <= z THEN z - s.n ELSE -1

(* Lookup: <<found, steps>> *)
RECURSIVE Look(_, _)
Look(n, ss) ==
    IF ss = << >> THEN <<TRUE, << >> >>
    ELSE IF IsKey(ss[1]) THEN
        IF n.t = 10 /\ Find(n, ss[1].k) # 0
        THEN LET j == Find(n, ss[1].k)
                 r == Look(n.v[j], Tail(ss)) IN <<r[1], <<[k |-> n.k[j]]>> \o r[2]>>
        ELSE <<FALSE, << >> >>
    ELSE IF n.t = 9 /\ Index(ss[1], Len(n.a)) >= 0
         THEN LET j == Index(ss[1], Len(n.a))
                  r == Look(n.a[j + 1], Tail(ss)) IN <<r[1], <<[i |-> j]>> \o r[2]>>
         ELSE <<FALSE, << >> >>
(* Building: [ok, n (the tree afterwards), w (steps)] *)
RECURSIVE Build(_, _)
Build(n, ss) ==
    IF ss = << >> THEN [ok |-> TRUE, n |-> n, w |-> << >>]
    ELSE IF IsKey(ss[1]) THEN
        LET m == IF IsNew(n) THEN Dict(0, 0, 0) ELSE n IN
        IF m.t # 10 THEN [ok |-> FALSE, n |-> n, w |-> << >>]
        ELSE LET m2 == IF Find(m, ss[1].k) = 0 THEN AddKey(m, ss[1].k, 0) ELSE m
                 j == Find(m2, ss[1].k)
                 r == Build(m2.v[j], Tail(ss))
             IN [ok |-> r.ok, n |-> [m2 EXCEPT !.v[j] = r.n], w |-> <<[k |-> m2.k[j]]>> \o r.w]
    ELSE IF ss[1].g = 9 THEN [ok |-> FALSE, n |-> n, w |-> << >>]
    ELSE LET m == IF IsNew(n) THEN Arr(0) ELSE n IN
        IF m.t # 9 THEN [ok |-> FALSE, n |-> n, w |-> << >>]
        ELSE LET m2 == IF ss[1].g = 0 THEN InsertAt(m, Len(m.a)) ELSE m
                 j == IF ss[1].g = 0 THEN Len(m.a) ELSE Index(ss[1], Len(m.a))
             IN IF j < 0 THEN [ok |-> FALSE, n |-> m, w |-> << >>]
                ELSE LET r == Build(m2.a[j + 1], Tail(ss))
                     IN [ok |-> r.ok, n |-> [m2 EXCEPT !.a[j + 1] = r.n], w |-> <<[i |-> j]>> \o r.w]
=============================================================================
