------------------------------ MODULE TraceNum ------------------------------
(* C17: one event per stored number: its bytes, the compatibility answers for  *)
(* types 2..7 and the bytes every getter returned.                              *)
EXTENDS TraceBase, Numbers
TraceInit == TBInit
IntOk(v, t, out, cp) ==
    /\ cp = (IF Representable(v, t) THEN 1 ELSE 0)
    /\ IF IsIntT(Ev.t) THEN out = IntBytes(v.s, v.m, t)                  \* conversion modulo 2^width
       ELSE LET c == Nearest(v, t) IN c # {} => out \in c               \* out of range: any
NumA == /\ Is("Num")
        /\ LET v == Decode(Ev.t, Ev.b) IN
           /\ IntOk(v, 2, Ev.i3, Ev.cp[1]) /\ IntOk(v, 3, Ev.u3, Ev.cp[2])
           /\ IntOk(v, 4, Ev.i6, Ev.cp[3]) /\ IntOk(v, 5, Ev.u6, Ev.cp[4])
           /\ Ev.cp[5] = 1 /\ Ev.cp[6] = 1 /\ Ev.oth = 0
           /\ IF v.c = "nan" THEN Decode(6, Ev.f).c = "nan" /\ Decode(7, Ev.d).c = "nan"
              ELSE Ev.f = Float(v) /\ Ev.d = Double(v)
TraceNext == (Done \/ (Step /\ NumA))
TraceTypeOK == l \in Nat
=============================================================================
