------------------------------- MODULE MCValue -------------------------------
(* Every history of one small value tree: nulls, scalars, strings kept inline  *)
(* and on the heap, arrays and dictionaries (with and without kept order), up  *)
(* to MaxNodes nodes, changed at every place by every operation.  Prints one   *)
(* history per transition.                                                     *)
EXTENDS Value, TLC
CONSTANTS MaxNodes, MaxDepth
VARIABLES tree, path
vars == <<tree, path>>

Kinds == { <<"null", Null>>, <<"bool 1", Scalar(1, <<1>>, 0)>>, <<"strl 3 97", Scalar(8, <<3>>, 0)>>, <<"strl 40 97", Scalar(8, <<40>>, 1)>>,
           <<"arr", Arr(1)>>, <<"dict", Dict(0, 0, 1)>>, <<"dictx 0 1", Dict(0, 1, 1)>> }
Keys == { <<97>>, <<98>> }
Hex(k) == IF k = <<97>> THEN "61" ELSE "62"
RECURSIVE Nodes(_), NodesSeq(_, _)
NodesSeq(q, i) == IF i > Len(q) THEN 0 ELSE Nodes(q[i]) + NodesSeq(q, i + 1)
Nodes(n) == 1 + (CASE n.t = 9 -> NodesSeq(n.a, 1) [] n.t = 10 -> NodesSeq(n.v, 1) [] OTHER -> 0)
(* all places, as step sequences *)
RECURSIVE Places(_)
Places(n) == {<< >>} \union
             (CASE n.t = 9 -> UNION {{<<[i |-> j - 1]>> \o p : p \in Places(n.a[j])} : j \in 1..Len(n.a)}
                [] n.t = 10 -> UNION {{<<[k |-> n.k[j]]>> \o p : p \in Places(n.v[j])} : j \in 1..Len(n.k)}
                [] OTHER -> {})
RECURSIVE Addr(_)
Addr(p) == IF p = << >> THEN "1" ELSE Addr(SubSeq(p, 1, Len(p) - 1)) \o (IF IsIx(p[Len(p)]) THEN ".i" \o ToString(p[Len(p)].i) ELSE ".k" \o Hex(p[Len(p)].k))

Init == tree = Null /\ path = ""
Do(p, cmd, w) == /\ path' = path \o ";" \o cmd
                 /\ tree' = Upd(tree, p, w)
Room == Nodes(tree) < MaxNodes
Ini(p, k) == (Len(p) >= MaxDepth => k[2].t < 9) /\ Do(p, "ini " \o Addr(p) \o " " \o k[1], k[2])
Insert(p, n, i) == n.t = 9 /\ i <= Len(n.a) /\ Room /\ Do(p, "ins " \o Addr(p) \o " " \o ToString(i), InsertAt(n, i))
Range(p, n, i, c) == n.t = 9 /\ i + c <= Len(n.a) /\ Do(p, "rng " \o Addr(p) \o " " \o ToString(i) \o " " \o ToString(c), RemoveRange(n, i, c))
AddK(p, n, k, g) == n.t = 10 /\ (Find(n, k) = 0 => Room)
                    /\ Do(p, (IF g THEN "goa " ELSE "add ") \o Addr(p) \o " " \o Hex(k), IF Find(n, k) = 0 THEN AddKey(n, k, 1) ELSE n)
DelK(p, n, k) == n.t = 10 /\ Do(p, "drm " \o Addr(p) \o " " \o Hex(k), IF Find(n, k) = 0 THEN n ELSE DelKey(n, Find(n, k)))
Clean(p, n) == (n.t = 9 /\ Do(p, "acl " \o Addr(p), Emptied(n))) \/ (n.t = 10 /\ Do(p, "dcl " \o Addr(p), Emptied(n)))
Fini(p) == Do(p, "fin " \o Addr(p), Null)
Next == \E p \in Places(tree) :
          LET n == At(tree, p) IN
          \/ \E k \in Kinds : Ini(p, k)
          \/ \E i \in 0..MaxNodes : Insert(p, n, i) \/ (\E c \in 0..MaxNodes : Range(p, n, i, c))
          \/ \E k \in Keys : AddK(p, n, k, TRUE) \/ AddK(p, n, k, FALSE) \/ DelK(p, n, k)
          \/ Clean(p, n) \/ Fini(p)
View == tree
PrintPath == PrintT("@" \o path')

(* Model properties *)
RECURSIVE WF(_)
WF(n) == CASE n.t = 9 -> \A i \in 1..Len(n.a) : WF(n.a[i])
           [] n.t = 10 -> /\ Len(n.k) = Len(n.v) /\ Len(n.e) = Len(n.k)
                          /\ \A i, j \in 1..Len(n.k) : i # j => n.k[i] # n.k[j]
                          /\ \A i \in 1..Len(n.k) : WF(n.v[i])
           [] OTHER -> n.t \in 0..8
Bounded == Nodes(tree) <= MaxNodes /\ Cost(tree) >= 0
(* a lookup of the steps of a place finds that place, and changing it changes no other place *)
AsPath(p) == [i \in 1..Len(p) |-> IF IsIx(p[i]) THEN [g |-> 1, n |-> p[i].i] ELSE [k |-> p[i].k]]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Found == \A p \in Places(tree) : Has(tree, p) /\ Look(tree, AsPath(p)) = <<TRUE, p>>
Frame == \A p \in Places(tree) : LET u == Upd(tree, p, Scalar(1, <<9>>, 0)) IN
            /\ At(u, p).t = 1
            /\ \A q \in Places(tree) : (~Prefix(p, q) /\ ~Prefix(q, p)) => At(u, q) = At(tree, q)
(* building a path that exists changes nothing and returns its place *)
BuildSame == \A p \in Places(tree) : LET r == Build(tree, AsPath(p)) IN r.ok /\ r.n = tree /\ r.w = p
Inv == WF(tree) /\ Bounded /\ Found /\ Frame /\ BuildSame
=============================================================================
