----------------------------- MODULE TraceValue -----------------------------
EXTENDS TraceBase, Value
CONSTANT Prop
VARIABLES root,     \* slot 1..3 -> tree
          known     \* slots whose block accounting is exact
vv == <<root, known>>
Slots == 1..3
TraceInit == TBInit /\ root = [i \in Slots |-> Null] /\ known = [i \in Slots |-> TRUE]

RootOf(i) == IF i = 0 THEN Null ELSE root[i]
Valid == Has(RootOf(Ev.s), Ev.p)
Here == At(RootOf(Ev.s), Ev.p)
Become(w) == IF Ev.s = 0 THEN UNCHANGED vv
             ELSE root' = [root EXCEPT ![Ev.s] = Upd(@, Ev.p, w)] /\ UNCHANGED known
Same0 == UNCHANGED vv
P20 == Prop = "C20"
Known == P20 /\ Ev.s # 0 /\ known[Ev.s]
Freed(n) == Known => Ev.d = 0 - n          \* exactly n blocks released
Nothing == P20 => Ev.d = 0
NoMem == Ev.oom > 0
Z == /\ Ev.bad = 0 /\ Ev.lv >= 0

InitV == /\ Is("Init") /\ Valid
         /\ Known => Ev.rel = 0 - Cost(Here)
         /\ IF Ev.s = 0 THEN Ev.r = -1 /\ Ev.ty = 0 /\ Ev.new = 0 /\ Nothing /\ Same0
            ELSE IF Ev.r = 0
            THEN /\ Ev.ty = Ev.t /\ Ev.new = 0
                 /\ Become(CASE Ev.t = 0 -> Null
                             [] Ev.t \in 1..8 -> Scalar(Ev.t, Ev.v, Ev.d)
                             [] Ev.t = 9 -> Arr(Ev.d)
                             [] Ev.t = 10 -> Dict(Ev.c, Ev.o, Ev.d))
            ELSE Ev.r = -1 /\ NoMem /\ Ev.ty = 0 /\ Nothing /\ Become([Null EXCEPT !.new = Ev.new])
Fin == /\ Is("Fin") /\ Valid /\ Ev.ty = 0 /\ Ev.new = 0 /\ Freed(Cost(Here))
       /\ IF Ev.s = 0 THEN Same0
          ELSE /\ root' = [root EXCEPT ![Ev.s] = Upd(@, Ev.p, Null)]
               /\ known' = IF Ev.p = << >> THEN [known EXCEPT ![Ev.s] = TRUE] ELSE known

(* Arrays *)
Size(n) == IF n.t = 9 THEN Len(n.a) ELSE 0
Ins == /\ Is("Ins") /\ Valid
       /\ IF Here.t = 9 /\ Ev.i <= Len(Here.a)
          THEN IF Ev.r = 1
               THEN /\ Ev.at = 1 /\ Ev.new = 1 /\ Ev.z = Len(Here.a) + 1
                    /\ Become([InsertAt(Here, Ev.i) EXCEPT !.b = @ + Ev.d])
               ELSE Ev.r = 0 /\ NoMem /\ Ev.z = Len(Here.a) /\ Nothing /\ Same0
          ELSE Ev.r = 0 /\ Ev.z = Size(Here) /\ Nothing /\ Same0
Rng == /\ Is("Rng") /\ Valid
       /\ IF Here.t = 9 /\ Ev.i + Ev.c <= Len(Here.a)
          THEN LET own == Ev.d + CostSeq(SubSeq(Here.a, Ev.i + 1, Ev.i + Ev.c), 1) IN
               /\ Ev.r = 0 /\ Ev.z = Len(Here.a) - Ev.c
               /\ Known => own <= 0 /\ own >= -1
               /\ Become([RemoveRange(Here, Ev.i, Ev.c) EXCEPT !.b = @ + own])
          ELSE Ev.r = -1 /\ Ev.z = Size(Here) /\ Nothing /\ Same0
Acl == /\ Is("Acl") /\ Valid /\ Ev.z = 0
       /\ IF Here.t = 9
          THEN LET own == Ev.d + CostSeq(Here.a, 1) IN
               /\ Known => own <= 0 /\ Here.b + own >= 0
               /\ Become([Emptied(Here) EXCEPT !.b = @ + own])
          ELSE Nothing /\ Same0
Get == /\ Is("Get") /\ Valid /\ Nothing /\ Same0
       /\ Ev.r = (IF Here.t = 9 /\ Ev.i < Len(Here.a) THEN 1 ELSE 0) /\ Ev.at = 1

(* Dictionaries *)
DSize(n) == IF n.t = 10 THEN Len(n.k) ELSE 0
AddA == /\ Is("Add") /\ Valid /\ Ev.z0 = DSize(Here)
        /\ IF Here.t # 10 THEN Ev.r = 0 /\ Ev.z = 0 /\ Nothing /\ Same0
           ELSE LET j == Find(Here, Ev.k) IN
                IF j # 0
                THEN /\ Nothing /\ Same0 /\ Ev.z = Len(Here.k)
                     /\ IF Ev.g = 0 THEN Ev.r = 0
                        ELSE Ev.r = 1 /\ Ev.at = 1 /\ Ev.new = (IF IsNew(Here.v[j]) THEN 1 ELSE 0)
                ELSE IF Ev.r = 1
                THEN Ev.at = 1 /\ Ev.new = 1 /\ Ev.z = Len(Here.k) + 1 /\ Become(AddKey(Here, Ev.k, Ev.d))
                ELSE Ev.r = 0 /\ NoMem /\ Ev.z = Len(Here.k) /\ Nothing /\ Same0
Drm == /\ Is("Drm") /\ Valid
       /\ IF Here.t = 10 /\ Find(Here, Ev.k) # 0
          THEN LET j == Find(Here, Ev.k) IN
               /\ Ev.r = 0 /\ Ev.z = Len(Here.k) - 1
               /\ Freed(Here.e[j] + Cost(Here.v[j])) /\ Become(DelKey(Here, j))
          ELSE Ev.r = -1 /\ Ev.z = DSize(Here) /\ Nothing /\ Same0
Dcl == /\ Is("Dcl") /\ Valid /\ Ev.z = 0
       /\ IF Here.t = 10 THEN Freed(Cost(Here) - Here.b) /\ Become(Emptied(Here))
          ELSE Nothing /\ Same0

(* The place a command names does not exist: nothing was called *)
Lost == Is("Lost") /\ ~Valid /\ Nothing /\ Same0
(* A dump shows the tree completely, through every way of listing it *)
Ascending(c, ks) == \A i \in 1..(Len(ks) - 1) : Cmp(c, ks[i], ks[i + 1]) < 0
RECURSIVE Shows(_, _)
Shows(n, d) ==
    /\ d.t = n.t
    /\ CASE n.t = 0 -> d.new = n.new
         [] n.t \in 1..7 -> d.d = n.d
         [] n.t = 8 -> d.d = n.d /\ d.z = 0
         [] n.t = 9 -> /\ Len(d.a) = Len(n.a) /\ d.ga = 1 /\ d.ob = 1
                       /\ \A i \in 1..Len(n.a) : Shows(n.a[i], d.a[i])
         [] n.t = 10 ->
            LET m == Len(n.k) IN
            /\ d.n = m /\ d.o = n.o /\ d.fl = n.o
            /\ d.r = 0 /\ Len(d.s) = m
            /\ Ascending(n.c, [i \in 1..m |-> d.s[i].k])
            /\ \A i \in 1..m : LET j == Find(n, d.s[i].k) IN
                  j # 0 /\ n.k[j] = d.s[i].k /\ d.s[i].z = 0 /\ d.s[i].g = 1 /\ Shows(n.v[j], d.s[i].v)
            /\ d.ks = [i \in 1..m |-> d.s[i].k]
            /\ IF n.o = 1 THEN d.qr = 0 /\ d.q = n.k /\ d.ko = n.k ELSE d.qr = -1 /\ d.q = << >> /\ d.ko = << >>
Dump == Is("Dump") /\ Valid /\ Shows(Here, Ev.v) /\ Nothing /\ Same0
Dget == /\ Is("Dget") /\ Valid /\ Nothing /\ Same0
        /\ IF Here.t = 10 /\ Find(Here, Ev.k) # 0 THEN Ev.r = 1 /\ Shows(Here.v[Find(Here, Ev.k)], Ev.v) ELSE Ev.r = 0

(* Walks and listings: the first Len(ks) keys of the requested order *)
Leading(n, ks, m) ==
    IF m = 1 THEN ks = SubSeq(n.k, 1, Len(ks))
    ELSE /\ Ascending(n.c, ks)
         /\ \A i \in 1..Len(ks) : \E j \in 1..Len(n.k) : n.k[j] = ks[i]
         /\ ks # << >> => Cardinality({j \in 1..Len(n.k) : Cmp(n.c, n.k[j], ks[Len(ks)]) <= 0}) = Len(ks)
Listable(n, m) == n.t = 10 /\ (m = 0 \/ n.o = 1)
Walk == /\ Is("Walk") /\ Valid /\ Nothing /\ Same0
        /\ IF ~Listable(Here, Ev.m) THEN Ev.r = -1 /\ Ev.ks = << >>
           ELSE LET stops == Ev.ret # 0 /\ Ev.stop >= 1 /\ Ev.stop <= Len(Here.k) IN
                /\ Len(Ev.ks) = (IF stops THEN Ev.stop ELSE Len(Here.k))
                /\ Ev.r = (IF stops THEN Ev.ret ELSE 0)
                /\ Leading(Here, Ev.ks, Ev.m)
KeysL == /\ Is("Keys") /\ Valid /\ Nothing /\ Same0
         /\ IF ~Listable(Here, Ev.m) THEN Ev.r = 0 /\ Ev.ks = << >>
            ELSE Ev.r = MinN(Ev.bs, Len(Here.k)) /\ Len(Ev.ks) = Ev.r /\ Leading(Here, Ev.ks, Ev.m)

(* Asking any value everything *)
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Int4(_)
Int4(d) == d[1] + 256 * (d[2] + 256 * (d[3] + 256 * (IF d[4] >= 128 THEN d[4] - 256 ELSE d[4])))
Ask == /\ Is("Ask") /\ Valid /\ Nothing /\ Same0
       /\ LET n == Here IN
          /\ Ev.t = n.t /\ Ev.new = B(IsNew(n))
          /\ Ev.bo = (IF n.t = 1 THEN n.d[1] ELSE -1)
          /\ Ev.str = B(n.t = 8) /\ Ev.sl = (IF n.t = 8 THEN Len(n.d) ELSE 0)
          /\ Ev.az = Size(n) /\ Ev.ag = B(Size(n) > 0)
          /\ n.t # 9 => Ev.aa = 0
          /\ Size(n) > 0 => Ev.aa = 1
          /\ Ev.dz = DSize(n) /\ Ev.df = (IF n.t = 10 THEN n.o ELSE 0)
          /\ Ev.dg = B(n.t = 10 /\ Find(n, <<97>>) # 0)
          /\ Ev.ws = (IF n.t = 10 THEN 0 ELSE -1) /\ Len(Ev.ig) = DSize(n)
          /\ Ev.wo = (IF n.t = 10 /\ n.o = 1 THEN 0 ELSE -1) /\ Len(Ev.ih) = (IF n.t = 10 /\ n.o = 1 THEN DSize(n) ELSE 0)
          /\ Ev.kz = (IF n.t = 10 THEN MinN(1, Len(n.k)) * (1 + 10 * n.o) ELSE 0)
          /\ n.t \notin 2..7 => /\ Ev.i3 = -1 /\ Ev.u3 = 1 /\ Ev.i6 = 1 /\ Ev.u6 = 1 /\ Ev.f = 1 /\ Ev.dd = 1
                                /\ Ev.cp = [i \in 1..11 |-> B(i - 1 = n.t)]
          /\ n.t \in 2..7 => Ev.cp[n.t + 1] = 1 /\ (\A i \in 1..11 : Ev.cp[i] = 1 => (i - 1) \in 2..7)
          /\ n.t = 2 => Ev.i3 = Int4(n.d)
(* Container operations on values of another kind do nothing *)
Bad == Is("Bad") /\ Valid /\ Ev.r = 0 /\ Nothing /\ Same0
Big == Is("Big") /\ Ev.ok = 1 /\ Ev.r = 0 /\ Ev.lo = Ev.glo /\ Ev.hi = Ev.ghi /\ Same0

(* Paths *)
Steps == Parse(Ev.q, 1)
Path == /\ Is("Path") /\ Same0 /\ Nothing
        /\ Steps # Malformed =>
             LET r == Look(RootOf(Ev.s), Steps) IN
             IF Ev.s = 0 /\ Steps = << >> THEN Ev.r = 0
             ELSE IF r[1] THEN Ev.r = 1 /\ Ev.w = r[2] ELSE Ev.r = 0
(* what a build interrupted by lack of memory may leave behind *)
Take(q, i) == SubSeq(q, 1, i)
Interrupted(n, ss) ==
    UNION { LET r == Build(n, Take(ss, i)) IN
            IF ~r.ok THEN {r.n}
            ELSE {r.n} \union
                 (IF IsNew(At(r.n, r.w)) /\ i < Len(ss)
                  THEN {Upd(r.n, r.w, Null), Upd(r.n, r.w, IF IsKey(ss[i + 1]) THEN Dict(0, 0, 0) ELSE Arr(0))}
                  ELSE {})
            : i \in 0..Len(ss) }
BuildA == /\ Is("Build") /\ Ev.s # 0 /\ Steps # Malformed
          /\ known' = [known EXCEPT ![Ev.s] = @ /\ Ev.d = 0 /\ Ev.oom = 0]
          /\ LET r == Build(root[Ev.s], Steps) IN
             IF Ev.r = 1 THEN /\ r.ok /\ Ev.w = r.w
                              /\ Ev.new = B(IsNew(At(r.n, r.w)))
                              /\ root' = [root EXCEPT ![Ev.s] = r.n]
             ELSE /\ Ev.r = 0
                  /\ IF ~NoMem /\ (\A i \in 1..Len(Steps) : Steps[i] # Never) THEN ~r.ok /\ root' = [root EXCEPT ![Ev.s] = r.n]
                     ELSE LET c == {x \in Interrupted(root[Ev.s], Steps) : Shows(x, Ev.v)} IN
                          c # {} /\ root' = [root EXCEPT ![Ev.s] = CHOOSE x \in c : TRUE]
BuildNull == Is("Build") /\ Ev.s = 0 /\ Ev.r = 0 /\ Same0

End == /\ Is("End") /\ Ev.lv = 0
       /\ root' = [i \in Slots |-> Null] /\ known' = [i \in Slots |-> TRUE]

TraceNext == \/ Done /\ UNCHANGED vv
             \/ Step /\ (InitV \/ Fin \/ Ins \/ Rng \/ Acl \/ Get \/ AddA \/ Drm \/ Dcl \/ Lost \/ Dump \/ Dget \/ Walk \/ KeysL \/ Ask \/ Bad \/ Big
                         \/ Path \/ BuildA \/ BuildNull \/ End) /\ Z
TraceTypeOK == \A i \in Slots : root[i].t \in 0..10
=============================================================================
