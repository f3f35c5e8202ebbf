----------------------------- MODULE MCCmdLine -----------------------------
(* Every command line up to MaxW words over a vocabulary, for a set of option   *)
(* tables, parsed one word per step.  Prints each complete line for replay.     *)
EXTENDS CmdLine, TLC, Json, IOUtils
CONSTANTS MaxW
In == JsonDeserialize(IOEnv.TABLES)        \* [tables |-> <<<<entry,...>>,...>>, words |-> <<string,...>>]
VARIABLES t, argv, i, after, calls
vars == <<t, argv, i, after, calls>>
Init == t \in 1..Len(In) /\ argv = << >> /\ i = 1 /\ after = FALSE /\ calls = << >>
Opts == In[t].opts
(* the line is extended by a word once all words so far are consumed, except that a word *)
(* which takes the next word as its argument waits for it                               *)
Waits == i <= Len(argv)
Extend == Len(argv) < MaxW /\ \E w \in 1..Len(In[t].words) : argv' = Append(argv, In[t].words[w]) /\ UNCHANGED <<t, i, after, calls>>
Consume == /\ Waits
           /\ IF after THEN calls' = Append(calls, Call(None, argv[i])) /\ i' = i + 1 /\ UNCHANGED after
              ELSE IF argv[i] = DD THEN after' = TRUE /\ i' = i + 1 /\ UNCHANGED calls
              ELSE LET k == Take(Opts, argv, i) IN calls' = calls \o k.calls /\ i' = i + k.n /\ UNCHANGED after
           /\ UNCHANGED <<t, argv>>
Next == IF i = 1 /\ Len(argv) < MaxW THEN Extend \/ Consume ELSE Consume
Finished == i > Len(argv)
(* one word at a time is the same as the whole line at once *)
Same == Finished => (calls = Parse(Opts, argv) /\ calls = ParseLong(Opts, argv))
(* every call but those of a group of short options accounts for one or two words, and every word is accounted for *)
Ids == {Opts[k].id : k \in 1..Len(Opts)}
IdsOK == \A k \in 1..Len(calls) : calls[k].id \in Ids \union {None, Unknown, Missing, Bogus}
(* words are reported verbatim: a positional call carries some word of the line, and they come in order *)
Pos == SelectSeq(calls, LAMBDA c : c.id = None)
InOrder == \E f \in [1..Len(Pos) -> 1..Len(argv)] : \A a \in 1..Len(Pos) : argv[f[a]] = Pos[a].arg /\ \A b \in 1..Len(Pos) : a < b => f[a] < f[b]
AfterDD == (Finished /\ argv # << >> /\ argv[1] = DD) => Len(calls) = Len(argv) - 1 /\ \A k \in 1..Len(calls) : calls[k] = Call(None, argv[k + 1])
ArgRule == \A k \in 1..Len(calls) : calls[k].id \in Ids => LET S == {j \in 1..Len(Opts) : Opts[j].id = calls[k].id} IN
               \E j \in S : /\ (Required(Opts[j]) \/ Compiler(Opts[j])) => calls[k].has = 1
                            /\ ~(Required(Opts[j]) \/ Compiler(Opts[j]) \/ Optional(Opts[j])) => calls[k].has = 0
Inv == Same /\ IdsOK /\ InOrder /\ AfterDD /\ ArgRule
=============================================================================
