------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 with a configurable alphabet: o = [c62, c63, pad], pad = -1 *)
(* when padding is off.  Texts and data are sequences of 0..255.               *)
EXTENDS Naturals, Integers, Sequences
Invalid == <<-1>>
Chr(o, v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN o.c62 ELSE o.c63
Val(o, c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71 ELSE IF c >= 48 /\ c <= 57 THEN c + 4
             ELSE IF c = o.c62 THEN 62 ELSE IF c = o.c63 THEN 63 ELSE -1
(* options for which decoding is well defined *)
Alnum(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57
Sane(o) ==
           ~Alnum(o.c62) /\ ~Alnum(o.c63) /\ o.c62 # o.c63 /\ o.pad \notin {o.c62, o.c63} /\ ~Alnum(o.pad)
Group(o, s) ==      \* 1 to 3 bytes
    LET n == Len(s)
        v == s[1] * 65536 + (IF n > 1 THEN s[2] * 256 ELSE 0) + (IF n > 2 THEN s[3] ELSE 0)
        q == <<Chr(o, v \div 262144), Chr(o, (v \div 4096) % 64), Chr(o, (v \div 64) % 64), Chr(o, v % 64)>>
    IN SubSeq(q, 1, n + 1) \o (IF o.pad = -1 THEN << >> ELSE [i \in 1..(3 - n) |-> o.pad])
RECURSIVE Encode(_, _)
Encode(o, s) == IF s = << >> THEN << >> ELSE LET n == IF Len(s) < 3 THEN Len(s) ELSE 3 IN Group(o, SubSeq(s, 1, n)) \o Encode(o, SubSeq(s, n + 1, Len(s)))

(* Text without padding characters *)
RECURSIVE Quads(_, _)
Quads(o, t) ==
    IF t = << >> THEN << >>
    ELSE LET n == IF Len(t) < 4 THEN Len(t) ELSE 4
             v == [i \in 1..4 |-> IF i <= n THEN Val(o, t[i]) ELSE 0]
             x == v[1] * 262144 + v[2] * 4096 + v[3] * 64 + v[4]
             all == <<x \div 65536, (x \div 256) % 256, x % 256>>
         IN IF n = 1 \/ (\E i \in 1..n : v[i] < 0) THEN Invalid
            ELSE IF (n = 2 /\ v[2] % 16 # 0) \/ (n = 3 /\ v[3] % 4 # 0) THEN Invalid      \* left-over bits
            ELSE LET rest == Quads(o, SubSeq(t, 5, Len(t))) IN
                 IF rest = Invalid THEN Invalid ELSE SubSeq(all, 1, n - 1) \o rest
(* correct padding, if present, is dropped; anything else stays and is foreign *)
Unpad(o, t) ==
    LET n == Len(t) IN
    IF o.pad = -1 \/ n = 0 \/ n % 4 # 0 \/ t[n] # o.pad THEN t
    ELSE IF t[n - 1] = o.pad THEN SubSeq(t, 1, n - 2) ELSE SubSeq(t, 1, n - 1)
Decode(o, t) == Quads(o, Unpad(o, t))
=============================================================================
