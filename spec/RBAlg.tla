------------------------------- MODULE RBAlg --------------------------------
(* Algorithm-level model of data/rbtree.c (and of the same algorithm inside   *)
(* data/value.c): insertion and removal with their fix-ups on an explicit     *)
(* root-to-node path, written as the code is.  TLC explores every tree that   *)
(* any history over Key can reach.                                            *)
EXTENDS RBShape, TLC
CONSTANT NK              \* keys 1..NK
Key == 1..NK
VARIABLES t, S, hist     \* tree, abstract set, command path (hidden by View)
view == <<t, S>>

Nil == [root |-> 0, l |-> [k \in Key |-> 0], r |-> [k \in Key |-> 0], c |-> [k \in Key |-> 0]]

Attach(u, p, x, y) ==   \* y takes the place of x below p
    IF p = 0 THEN [u EXCEPT !.root = y]
    ELSE IF x = u.l[p] THEN [u EXCEPT !.l[p] = y]
    ELSE IF x = u.r[p] THEN [u EXCEPT !.r[p] = y] ELSE u
RotL(u, p, x) == LET y == u.r[x] IN Attach([u EXCEPT !.r[x] = u.l[y], !.l[y] = x], p, x, y)
RotR(u, p, x) == LET y == u.l[x] IN Attach([u EXCEPT !.l[x] = u.r[y], !.r[y] = x], p, x, y)
Black(u, x) == [u EXCEPT !.c[x] = 0]
Red(u, x)   == [u EXCEPT !.c[x] = 1]
IsRed(u, x) == x # 0 /\ u.c[x] = 1
IsBlack(u, x) == x = 0 \/ u.c[x] = 0
At(path, i) == IF i < 1 THEN 0 ELSE path[i]
Put(path, i, x) == [path EXCEPT ![i] = x]
Cut(path, n) == SubSeq(path, 1, n)

RECURSIVE Path(_, _, _)
Path(u, x, k) == IF x = 0 THEN <<>>
                 ELSE IF k = x THEN <<x>>
                 ELSE <<x>> \o Path(u, IF k < x THEN u.l[x] ELSE u.r[x], k)
RECURSIVE LeftPath(_, _)
LeftPath(u, x) == IF x = 0 THEN <<>> ELSE <<x>> \o LeftPath(u, u.l[x])

RECURSIVE InsFix(_, _)
InsFix(u, path) ==
    LET n == Len(path)
        x == path[n]
        p == At(path, n - 1)
    IN IF p = 0 THEN [Black(u, x) EXCEPT !.root = x]
       ELSE IF u.c[p] = 0 THEN u
       ELSE LET g == path[n - 2]
                uncle == IF p = u.l[g] THEN u.r[g] ELSE u.l[g]
            IN IF IsBlack(u, uncle)
               THEN LET gg == At(path, n - 3)
                        s == IF u.l[g] # 0 /\ x = u.r[u.l[g]]
                             THEN [u |-> RotL(u, g, p), p |-> x, x |-> u.l[x], sw |-> TRUE]
                             ELSE IF u.r[g] # 0 /\ x = u.l[u.r[g]]
                             THEN [u |-> RotR(u, g, p), p |-> x, x |-> u.r[x], sw |-> TRUE]
                             ELSE [u |-> u, p |-> p, x |-> x, sw |-> FALSE]
                        x1 == IF s.sw THEN p ELSE s.x
                        v == IF x1 = s.u.l[s.p] THEN RotR(s.u, gg, g) ELSE RotL(s.u, gg, g)
                    IN Red(Black(v, s.p), g)
               ELSE InsFix(Red(Black(Black(u, p), uncle), g), Cut(path, n - 2))

InsertT(u, k) ==
    LET path == Path(u, u.root, k)
        n == Len(path)
        u0 == [u EXCEPT !.l[k] = 0, !.r[k] = 0, !.c[k] = 1]
        u1 == IF n = 0 THEN [u0 EXCEPT !.root = k]
              ELSE IF k < path[n] THEN [u0 EXCEPT !.l[path[n]] = k] ELSE [u0 EXCEPT !.r[path[n]] = k]
    IN InsFix(u1, Append(path, k))

RECURSIVE RemFix(_, _)
RemFix(u, path) ==
    LET n == Len(path)
        x == path[n]
    IN IF IsRed(u, x) THEN Black(u, x)
       ELSE IF n <= 1 THEN u
       ELSE LET p == path[n - 1]
                left == (x = u.l[p])
                s == IF left THEN u.r[p] ELSE u.l[p]
                g == At(path, n - 2)
            IN IF IsRed(u, s)
               THEN LET v == Red(Black(IF left THEN RotL(u, g, p) ELSE RotR(u, g, p), s), p)
                    IN RemFix(v, Append(Put(Put(path, n - 1, s), n, p), x))
               ELSE IF IsRed(u, u.l[s]) \/ IsRed(u, u.r[s])
               THEN LET v == IF left /\ IsBlack(u, u.r[s])
                             THEN RotR(Black(Red(u, s), u.l[s]), p, s)
                             ELSE IF ~left /\ IsBlack(u, u.l[s])
                             THEN RotL(Black(Red(u, s), u.r[s]), p, s) ELSE u
                        z == IF left THEN v.r[p] ELSE v.l[p]
                        w == Black([v EXCEPT !.c[z] = v.c[p]], p)
                    IN IF left THEN RotL(Black(w, w.r[z]), g, p)
                       ELSE RotR(Black(w, w.l[z]), g, p)
               ELSE RemFix(Red(u, s), Cut(path, n - 1))

RemoveT(u, k) ==
    LET path == Path(u, u.root, k)
        ni == Len(path)
        k2 == u.r[k]
        par == At(path, ni - 1)
        Common(v, s, newpath) ==     \* the successor s takes the node's place
            LET a == [v EXCEPT !.l[s] = v.l[k], !.l[k] = 0]
                b == IF ni > 1 THEN (IF k = a.l[par] THEN [a EXCEPT !.l[par] = s] ELSE [a EXCEPT !.r[par] = s])
                     ELSE [a EXCEPT !.root = s]
            IN <<[b EXCEPT !.c[s] = b.c[k], !.c[k] = b.c[s]], newpath>>
        sw == IF k2 # 0 /\ u.l[k2] # 0
              THEN LET lp == LeftPath(u, k2)
                       full == path \o lp
                       m == Len(full)
                       s == full[m]
                       a == [u EXCEPT !.r[s] = u.r[k], !.r[k] = u.r[s]]
                       b == IF s = a.l[full[m-1]] THEN [a EXCEPT !.l[full[m-1]] = k] ELSE [a EXCEPT !.r[full[m-1]] = k]
                   IN Common(b, s, Put(Put(full, ni, s), m, k))
              ELSE IF k2 # 0 /\ u.l[k] # 0
              THEN Common([u EXCEPT !.r[k] = u.r[k2], !.r[k2] = k], k2, Append(Put(path, ni, k2), k))
              ELSE <<u, path>>
        v == sw[1]
        pt == sw[2]
        n == Len(pt)
        child == IF v.l[k] # 0 THEN v.l[k] ELSE v.r[k]
        w == IF n > 1 THEN (IF k = v.l[pt[n-1]] THEN [v EXCEPT !.l[pt[n-1]] = child] ELSE [v EXCEPT !.r[pt[n-1]] = child])
             ELSE [v EXCEPT !.root = child]
        z == IF v.c[k] = 0 THEN RemFix(w, Put(pt, n, child)) ELSE w
    IN [z EXCEPT !.l[k] = 0, !.r[k] = 0, !.c[k] = 0]      \* normalise the detached node

Init == t = Nil /\ S = {} /\ hist = ""
Cmd(s) == hist' = hist \o ";" \o s
Insert(k) == /\ k \notin S /\ t' = InsertT(t, k) /\ S' = S \union {k} /\ Cmd("i " \o ToString(k))
Remove(k) == /\ k \in S /\ t' = RemoveT(t, k) /\ S' = S \ {k} /\ Cmd("r " \o ToString(k))
Next == \E k \in Key : Insert(k) \/ Remove(k)

Set(s) == {s[i] : i \in 1..Len(s)}
Refines == LET w == InOrder(t, t.root, NK + 1) IN
           /\ Set(w) = S /\ Len(w) = Cardinality(S)
           /\ \A i \in 1..(Len(w) - 1) : w[i] < w[i + 1]
Rules == Balanced(t, NK + 1)
Depth == LogBound(Height(t, t.root, NK + 1), Cardinality(S), 0)
PrintPath == PrintT("@" \o hist')
=============================================================================
