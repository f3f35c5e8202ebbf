----------------------------- MODULE TraceDefs -----------------------------
EXTENDS TraceBase, Defs
TraceInit == TBInit
Bit(p) == IF p THEN 1 ELSE 0
Num == /\ Is("Num")
       /\ Ev.min = MinOf({Ev.a, Ev.b}) /\ Ev.max = MaxOf({Ev.a, Ev.b})
       /\ Ev.min3 = MinOf({Ev.a, Ev.b, Ev.c}) /\ Ev.max3 = MaxOf({Ev.a, Ev.b, Ev.c})
       /\ (Le(Ev.b, Ev.c) => Ev.clamp = Clamp(Ev.a, Ev.b, Ev.c))
       /\ (Ev.absok = 1 => Ev.abs = Abs(Ev.a))
Ctx == /\ Is("Ctx")
       /\ LET a == Ev.a b == Ev.b c == Ev.c mn == MinOf({a, b}) mx == MaxOf({a, b}) mn3 == MinOf({a, b, c}) mx3 == MaxOf({a, b, c}) IN
          /\ Ev.submin = Sub(c, mn) /\ Ev.submax = Sub(Sub(c, mx), W(1)) /\ Ev.submin3 = Sub(W(1), mn3) /\ Ev.submax3 = Add(Sub(W(1), mx3), c)
          /\ Ev.subabs = Sub(b, Abs(a)) /\ (Le(b, c) => Ev.subclamp = Sub(a, Clamp(a, b, c)) /\ Ev.dblclamp = Twice(Clamp(a, b, c)))
          /\ Ev.negmin = Minus(mn) /\ Ev.negmax = Minus(mx) /\ Ev.negabs = Minus(Abs(a))
          /\ Ev.dblmin = Twice(mn) /\ Ev.dblmax = Twice(mx) /\ Ev.dblabs = Add(Twice(Abs(a)), W(1)) /\ Ev.dblmin3 = Twice(mn3) /\ Ev.dblmax3 = Twice(mx3)
          /\ Ev.eq = W(Bit(c = mn) + 2 * Bit(c = mx) + 4 * Bit(Abs(a) = Abs(b)) + 8 * Bit(a # b))
          /\ Ev.branch = W(IF Lt(a, b) THEN (IF Lt(a, c) THEN 1 ELSE 2) ELSE IF Lt(c, a) THEN 3 ELSE 4)
Off == /\ Is("Off")
       /\ LET y == Layout[Ev.lay] o == y.off[Ev.m] IN
          /\ Ev.off = o /\ Ev.real = o /\ Ev.size = y.size /\ Ev.twice = 2 * o /\ Ev.back5 = o
          /\ Ev.back = 0 /\ Ev.back1 = 0 /\ Ev.back2 = 0 /\ Ev.back3 = 0 /\ Ev.back4 = 0
Array == /\ Is("Arr") /\ Ev.c1 = Ev.n /\ Ev.c2 = Ev.n /\ Ev.c3 = Ev.n /\ Ev.c4 = Ev.n /\ Ev.c5 = Ev.n /\ Ev.c6 = 10000 \div Ev.n /\ Ev.c7 = 2 * Ev.n + 1
Arrays == Is("Arrs") /\ Ev.v = <<7, 6, 5, 2, 3, 4, 1, 300, 4, 70000, 200000>>
Str == Is("Str") /\ Ev.s1 = "5" /\ Ev.s2 = "5.3" /\ Ev.s3 = "hello world" /\ Ev.s4 = "5-3" /\ Ev.s5 = "" /\ Ev.s6 = "a+b"
Pre == Is("Pre") /\ Ev.v = <<-1000001, -1000002, -1000003, -1000004, -1000005, -1000006, -1000007, -1000008>> /\ Ev.s = "predefined" /\ Ev.p = 1
TraceNext == \/ Done
             \/ Step /\ (Num \/ Ctx \/ Off \/ Array \/ Arrays \/ Str \/ Pre)
TraceTypeOK == l \in Nat
=============================================================================
