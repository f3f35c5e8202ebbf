---------------------------- MODULE TraceDictCost ----------------------------
(* C14: what a dictionary may cost.  Keys are numbers (the driver renders them *)
(* as five-digit strings); comparator m orders them ascending or, when 1,      *)
(* descending, and counts its calls (m = 0 is the built-in one, not counted).  *)
EXTENDS TraceBase, RBShape
VARIABLES keys, m
vv == <<keys, m>>
TraceInit == TBInit /\ keys = {} /\ m = 0

Obs == Ev.rb = 0 /\ Ev.n = Cardinality(keys')
Cheap(z) == LogBound(Ev.c, z, 2)
Ini == Is("LIni") /\ keys' = {} /\ m' = Ev.m
Op == /\ Is("L") /\ UNCHANGED m /\ Cheap(Cardinality(keys))
      /\ LET in == Ev.k \in keys IN
         CASE Ev.o = "a" -> Ev.r = (IF in THEN 0 ELSE 1) /\ keys' = keys \union {Ev.k}
           [] Ev.o = "o" -> Ev.r = 1 /\ keys' = keys \union {Ev.k}
           [] Ev.o = "g" -> Ev.r = (IF in THEN 1 ELSE 0) /\ keys' = keys
           [] Ev.o = "r" -> Ev.r = (IF in THEN 1 ELSE 0) /\ keys' = keys \ {Ev.k}
RECURSIVE Fold(_, _, _)
Fold(S, v, i) == IF i > Len(v) THEN S ELSE Fold(IF v[i] > 0 THEN S \union {v[i]} ELSE S \ {0 - v[i]}, v, i + 1)
HistA == Is("LHist") /\ UNCHANGED m /\ keys' = Fold(keys, Ev.v, 1)
(* the shape that lookups of every key traverse *)
Shape == [root |-> Ev.root, l |-> Ev.L, r |-> Ev.R]
ShapeA == /\ Is("LShape") /\ UNCHANGED vv /\ Ev.deep = 0
          /\ Len(Ev.v) = Cardinality(keys) /\ keys = {Ev.v[i] : i \in 1..Len(Ev.v)}
          /\ InOrder(Shape, Ev.root, 121) = [i \in 1..Len(Ev.v) |-> i]
          /\ Colourable(Shape, 121) /\ LogBound(Height(Shape, Ev.root, 121), Len(Ev.v), 0)
EndA == Is("End") /\ keys' = {} /\ UNCHANGED m
TraceNext == \/ Done /\ UNCHANGED vv
             \/ Step /\ (((Ini \/ Op \/ HistA \/ ShapeA) /\ Obs) \/ EndA)
TraceTypeOK == m \in 0..3
=============================================================================
