---------------------------- MODULE TraceStream ----------------------------
EXTENDS TraceBase, MemStream
VARIABLE st          \* handle -> stream
TraceInit == TBInit /\ st = << >>
Has(i) == i \in DOMAIN st
Set(i, s) == st' = [k \in DOMAIN st \union {i} |-> IF k = i THEN s ELSE st[k]]
S == st[Ev.s]
Failed == Ev.hr < 0
Fine == Ev.bad = 0 /\ Ev.const = 1
Quiet == Ev.al = 0 /\ Ev.fr = 0
Same == UNCHANGED st
Create == /\ Is("Create") /\ Fine /\ Ev.fr = 0
          /\ IF Ev.got = 1 THEN Ev.hr = 0 /\ Ev.al = 1 /\ Ev.resfail = 0 /\ Set(Ev.s, New(Ev.size))
             ELSE Failed /\ (Ev.oom > 0 \/ Ev.resfail > 0) /\ Ev.al = 0 /\ Same
Read == /\ Is("Read") /\ Has(Ev.s) /\ Fine /\ Quiet
        /\ IF S.known
           THEN LET n == ReadN(S, Ev.n) k == ToInt(n) IN
                /\ Ev.cnt \in {-1, k}                       \* -1: count not asked for
                /\ Len(Ev.out) >= k /\ SubSeq(Ev.out, 1, k) = Data(S.pos, k)
                /\ IF AtEnd(S) THEN Ev.hr \in {0, 1} /\ (Ev.n # Zero => Ev.hr = 1)
                   ELSE Ev.hr \in {0, 1} /\ (k > 0 /\ n = Ev.n => Ev.hr = 0) /\ (Ev.hr = 1 => n # Ev.n)
                /\ Set(Ev.s, Advance(S, n))
           ELSE Ev.hr >= 0 /\ Same
Seek0 == /\ Is("Seek") /\ Has(Ev.s) /\ Fine /\ Quiet
         /\ IF S.known \/ (Ev.origin # 1 /\ Ev.origin \in 0..2 /\ SeekOK(S, Ev.d, Ev.origin))
            THEN IF SeekOK(S, Ev.d, Ev.origin)
                 THEN Ev.hr = 0 /\ Set(Ev.s, Seek(S, Ev.d, Ev.origin)) /\ (Ev.hasnew = 1 => Ev.new = Target(S, Ev.d, Ev.origin))
                 ELSE Failed /\ Same /\ (Ev.hasnew = 1 => Ev.new = S.pos)
            ELSE Same
(* dst: what the destination got in all; lim: the most it takes; mode "f": it fails *)
Copy == /\ Is("Copy") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Ev.dstbad = 0
        /\ IF S.known
           THEN LET want == ReadN(S, Ev.n) got == Len(Ev.dst) IN
                /\ Ev.dst = Data(S.pos, got) /\ Le(W(got), want)
                /\ IF Failed THEN Ev.mode = 1 /\ Set(Ev.s, [S EXCEPT !.known = FALSE])
                   ELSE /\ Ev.hr >= 0
                        /\ (Ev.mode = 1 => want = Zero)
                        /\ (Ev.lim >= ToInt(want) => W(got) = want)
                        /\ (Ev.lim < ToInt(want) => got = Ev.lim \/ Ev.lim = 0)
                        /\ (Ev.hasr = 1 => Ev.nr = W(got)) /\ (Ev.hasw = 1 => Ev.nw = W(got))
                        /\ Set(Ev.s, Advance(S, W(got)))
           ELSE Same
Write == Is("Write") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Failed /\ Ev.cnt \in {-1, 0} /\ Same
Refuse == Is("Refuse") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Failed /\ Same
Noop == Is("Noop") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Ev.hr = 0 /\ Same
Stat == Is("Stat") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Ev.hr = 0 /\ Ev.type = 2 /\ Ev.size = S.size /\ Ev.mode = 0 /\ Ev.zero = 1 /\ Same
AddRef == Is("AddRef") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Ev.r = S.refs + 1 /\ Set(Ev.s, [S EXCEPT !.refs = @ + 1])
Release == /\ Is("Release") /\ Has(Ev.s) /\ Fine /\ Ev.al = 0 /\ Ev.r = S.refs - 1
           /\ IF S.refs = 1 THEN Ev.fr = 1 /\ st' = [k \in DOMAIN st \ {Ev.s} |-> st[k]]
              ELSE Ev.fr = 0 /\ Set(Ev.s, [S EXCEPT !.refs = @ - 1])
(* which: 0 IUnknown, 1 IDispatch, 2 ISequentialStream, 3 IStream, 9 something else *)
Query == /\ Is("Query") /\ Has(Ev.s) /\ Fine /\ Quiet
         /\ IF Ev.hr = 0 THEN Ev.which # 9 /\ Ev.same = 1 /\ Set(Ev.s, [S EXCEPT !.refs = @ + 1])
            ELSE Failed /\ Ev.which \in {1, 9} /\ Ev.null = 1 /\ Same
Clone == /\ Is("Clone") /\ Has(Ev.s) /\ Fine /\ Ev.fr = 0
         /\ IF Ev.got = 1 THEN Ev.hr = 0 /\ Ev.al = 1 /\ Set(Ev.t, [S EXCEPT !.refs = 1]) ELSE Failed /\ Ev.oom > 0 /\ Ev.al = 0 /\ Same
(* threads took and gave back references in equal number, n threads holding one each at the end *)
Threads == Is("Threads") /\ Has(Ev.s) /\ Fine /\ Quiet /\ Ev.after = S.refs + 1 /\ Set(Ev.s, [S EXCEPT !.refs = @ + 1])
LastOut == Is("LastOut") /\ Fine /\ Ev.zeros = 1 /\ Ev.fr = 1 /\ Same
(* Operations of several threads, interleaved step by step. poss: every way the    *)
(* atomic count changes can have happened so far; lin[t]: -1 idle, -2 not yet      *)
(* counted, otherwise the count just after this thread's change.                   *)
IL == 99
IBegin == /\ Is("IBegin") /\ ~Has(IL) /\ st' = [k \in DOMAIN st \union {IL} |-> IF k = IL THEN [poss |-> {[refs |-> Ev.n, lin |-> [t \in 1..Ev.n |-> -1]]}, freed |-> FALSE] ELSE st[k]]
IStep == /\ Is("IStep") /\ Has(IL) /\ Fine /\ Ev.al = 0 /\ Ev.fr \in {0, 1}
         /\ LET t == Ev.t
                begun == IF Ev.start = 1 THEN {[c EXCEPT !.lin[t] = -2] : c \in st[IL].poss} ELSE st[IL].poss
                d == IF Ev.w = "r" THEN -1 ELSE 1
                moved == begun \union {[c EXCEPT !.refs = @ + d, !.lin[t] = c.refs + d] : c \in {e \in begun : e.lin[t] = -2}}
                freed == st[IL].freed \/ Ev.fr = 1
                ok == {c \in moved : /\ (Ev.fr = 1 => (~st[IL].freed /\ Ev.w = "r" /\ c.lin[t] = 0))
                                    /\ (Ev.done = 1 => /\ c.lin[t] >= 0
                                                       /\ (Ev.w = "r" => ((Ev.r = 0 <=> c.lin[t] = 0) /\ (c.lin[t] = 0 => freed) /\ Ev.r >= 0))
                                                       /\ (Ev.w = "a" => Ev.r >= 1)
                                                       /\ (Ev.w = "q" => Ev.r = 0))}
                left == IF Ev.done = 1 THEN {[c EXCEPT !.lin[t] = -1] : c \in ok} ELSE ok
            IN left # {} /\ st' = [st EXCEPT ![IL] = [poss |-> left, freed |-> freed]]
IEnd == /\ Is("IEnd") /\ Has(IL) /\ Fine /\ Ev.al = 0
        /\ (\E c \in st[IL].poss : c.refs = Ev.left)
        /\ IF Ev.left = 0 THEN st[IL].freed /\ Ev.fr = 0 ELSE ~st[IL].freed /\ Ev.fr = 1 /\ Ev.zeros = 1
        /\ st' = [k \in DOMAIN st \ {IL} |-> st[k]]
End == Is("End") /\ Fine /\ Ev.live = Cardinality(DOMAIN st) /\ Same
TraceNext == \/ Done /\ UNCHANGED st
             \/ Step /\ (Create \/ Read \/ Seek0 \/ Copy \/ Write \/ Refuse \/ Noop \/ Stat \/ AddRef \/ Release \/ Query \/ Clone \/ Threads \/ LastOut \/ IBegin \/ IStep \/ IEnd \/ End)
TraceTypeOK == l \in Nat
=============================================================================
