------------------------------ MODULE CmdLine ------------------------------
(* Command-line parsing.  Strings are sequences of character codes.  A table    *)
(* entry is [s |-> short character or 0, haslong, long, id, flags]; one call of  *)
(* the callback is [id, has (argument given), arg].                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
None == 0
Unknown == -2147483647
Missing == -2147483646
Bogus == -2147483645
Optional(o) == o.flags % 2 = 1
Required(o) == (o.flags \div 2) % 2 = 1
Compiler(o) == (o.flags \div 4) % 2 = 1
Dash == 45
Equals == 61
Starts(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
From(w, k) == SubSeq(w, k, Len(w))
DD == <<Dash, Dash>>
Call(id, arg) == [id |-> id, has |-> 1, arg |-> arg]
Bare(id) == [id |-> id, has |-> 0, arg |-> << >>]

Matches(o, w) ==
    IF Compiler(o) THEN Starts(w, o.long)
    ELSE IF o.haslong = 1 /\ Starts(w, DD)
         THEN LET n == DD \o o.long IN Starts(w, n) /\ (Len(w) = Len(n) \/ w[Len(n) + 1] = Equals)
         ELSE o.s # 0 /\ Len(w) > 1 /\ w[1] = Dash /\ w[2] = o.s
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
First(opts, w) == LET S == {k \in 1..Len(opts) : Matches(opts[k], w)} IN IF S = {} THEN 0 ELSE Least(S)
FirstShort(opts, c) == LET S == {k \in 1..Len(opts) : ~Compiler(opts[k]) /\ opts[k].s = c} IN IF S = {} THEN 0 ELSE Least(S)
Group(opts, cs) == [k \in 1..Len(cs) |->
    LET j == FirstShort(opts, cs[k]) IN
    IF j = 0 THEN Call(Unknown, <<Dash, cs[k]>>) ELSE IF Required(opts[j]) THEN Call(Missing, <<Dash, cs[k]>>) ELSE Bare(opts[j].id)]
UpTo(w, c) == LET S == {k \in 1..Len(w) : w[k] = c} IN IF S = {} THEN w ELSE SubSeq(w, 1, Least(S) - 1)

(* The word argv[i], not after "--": the calls it causes and how many words it takes *)
Take(opts, argv, i) ==
    LET w == argv[i]
        k == First(opts, w)
        o == opts[k]
        next == IF i < Len(argv) THEN [calls |-> <<Call(o.id, argv[i + 1])>>, n |-> 2]
                ELSE [calls |-> <<Call(Missing, IF Compiler(o) THEN o.long ELSE w)>>, n |-> 1]
        one(c) == [calls |-> c, n |-> 1]
    IN IF w = <<Dash>> THEN one(<<Call(None, w)>>)
       ELSE IF k = 0
            THEN IF w = << >> \/ w[1] # Dash THEN one(<<Call(None, w)>>)
                 ELSE one(<<Call(Unknown, IF Starts(w, DD) THEN UpTo(w, Equals) ELSE w)>>)
       ELSE IF Compiler(o) THEN IF Len(w) > Len(o.long) THEN one(<<Call(o.id, From(w, Len(o.long) + 1))>>) ELSE next
       ELSE IF o.haslong = 1 /\ Starts(w, DD)
            THEN IF Len(w) = Len(o.long) + 2 THEN one(<<IF Required(o) THEN Call(Missing, w) ELSE Bare(o.id)>>)
                 ELSE IF Optional(o) \/ Required(o) THEN one(<<Call(o.id, From(w, Len(o.long) + 4))>>)
                 ELSE one(<<Call(Bogus, DD \o o.long)>>)
       ELSE IF Required(o) THEN IF Len(w) > 2 THEN one(<<Call(o.id, From(w, 3))>>) ELSE next
       ELSE one(<<Bare(o.id)>> \o Group(opts, From(w, 3)))
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(opts, argv, i, after) ==
    IF i > Len(argv) THEN << >>
    ELSE IF after THEN <<Call(None, argv[i])>> \o ParseFrom(opts, argv, i + 1, TRUE)
    ELSE IF argv[i] = DD THEN ParseFrom(opts, argv, i + 1, TRUE)
    ELSE LET t == Take(opts, argv, i) IN t.calls \o ParseFrom(opts, argv, i + t.n, FALSE)
(* argv without its first word *)
Parse(opts, argv) == ParseFrom(opts, argv, 1, FALSE)
(* The same from left to right, for very long lines: words still to be skipped, whether "--" was met, the calls so far *)
ParseLong(opts, argv) ==
    FoldLeftDomain(LAMBDA st, i :
        IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
        ELSE IF st.after THEN [st EXCEPT !.calls = Append(@, Call(None, argv[i]))]
        ELSE IF argv[i] = DD THEN [st EXCEPT !.after = TRUE]
        ELSE LET t == Take(opts, argv, i) IN [st EXCEPT !.skip = t.n - 1, !.calls = @ \o t.calls],
      [skip |-> 0, after |-> FALSE, calls |-> << >>], argv).calls
=============================================================================
