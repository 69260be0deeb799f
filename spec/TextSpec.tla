------------------------------ MODULE TextSpec ------------------------------
(* Text: a string object (a sequence of byte values 1..255) and the library's text operations on it, the UTF-8 /   *)
(* UTF-32 encodings, Base64 (URL alphabet, no padding), number printing, tokenising and command lines.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES str
\* ---- small tools
RECURSIVE LTrim(_), RTrim(_), Toks(_, _, _), Split(_, _), Flat(_), ToU8(_), FromU8(_), Digits(_, _), Pow(_, _)
Blank(b) == b >= 1 /\ b <= 32
LTrim(s) == IF s # <<>> /\ Blank(s[1]) THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trimmed(s) == LTrim(RTrim(s))
Replaced(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
Stripped(s, c) == SelectSeq(s, LAMBDA x : x # c)
Occurs(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
\* the non-empty pieces between characters of D
Toks(s, D, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                   ELSE IF s[1] \in D THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Toks(Tail(s), D, <<>>)
                   ELSE Toks(Tail(s), D, Append(cur, s[1]))
Tokens(s, D) == Toks(s, D, <<>>)
\* all pieces, empty ones too
Split(s, d) == LET I == {i \in 1..Len(s) : s[i] = d} IN
               IF I = {} THEN <<s>> ELSE LET k == CHOOSE i \in I : \A j \in I : i <= j IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), d)
Chunk(s, d, k) == LET p == Split(s, d) IN IF k < Len(p) THEN p[k + 1] ELSE <<>>
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Find(s, p) == LET I == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p} IN
              IF p = <<>> \/ I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
\* ---- UTF-8 and UTF-32
Enc(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Repl(c) == IF c < 0 \/ c > 1114111 THEN 65533 ELSE c            \* no such code point: the replacement character
ToU8(q) == IF q = <<>> THEN <<>> ELSE Enc(Repl(Head(q))) \o ToU8(Tail(q))
Cont(b) == b >= 128 /\ b <= 191
\* length of the well-formed sequence s starts with, 0 if there is none (Unicode table 3-7)
Good(s) == IF s = <<>> THEN 0 ELSE LET a == s[1]
                                      n == IF a < 128 THEN 1 ELSE IF a >= 194 /\ a <= 223 THEN 2 ELSE IF a >= 224 /\ a <= 239 THEN 3 ELSE IF a >= 240 /\ a <= 244 THEN 4 ELSE 0 IN
           IF n = 0 \/ Len(s) < n THEN 0
           ELSE IF \E i \in 2..n : ~Cont(s[i]) THEN 0
           ELSE IF (a = 224 /\ s[2] < 160) \/ (a = 237 /\ s[2] > 159) \/ (a = 240 /\ s[2] < 144) \/ (a = 244 /\ s[2] > 143) THEN 0 ELSE n
Val(s, n) == CASE n = 1 -> s[1] [] n = 2 -> (s[1] - 192) * 64 + s[2] - 128 [] n = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
             [] n = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
\* the code points of the longest well-formed prefix
FromU8(s) == LET n == Good(s) IN IF n = 0 THEN <<>> ELSE <<Val(s, n)>> \o FromU8(SubSeq(s, n + 1, Len(s)))
WellFormed(s) == ToU8(FromU8(s)) = s
\* what a caller hands over: everything up to and including the terminator, or n units if that comes first
Given(s, n) == LET t == Append(s, 0) IN IF n < 0 THEN t ELSE SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))
\* as many whole characters as fit in cap units
RECURSIVE Fit8(_, _)
Fit8(q, cap) == IF q = <<>> \/ Len(Enc(Repl(Head(q)))) > cap THEN <<>> ELSE Enc(Repl(Head(q))) \o Fit8(Tail(q), cap - Len(Enc(Repl(Head(q)))))
Fit32(q, cap) == SubSeq(q, 1, IF Len(q) < cap THEN Len(q) ELSE cap)
\* ---- Base64
Sextet(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 45 ELSE 95
UnSextet(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26 ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52 ELSE IF c = 45 THEN 62 ELSE 63
RECURSIVE B64(_), UnB64(_)
B64(s) == IF s = <<>> THEN <<>>
          ELSE IF Len(s) = 1 THEN <<Sextet(s[1] \div 4), Sextet((s[1] % 4) * 16)>>
          ELSE IF Len(s) = 2 THEN <<Sextet(s[1] \div 4), Sextet((s[1] % 4) * 16 + (s[2] \div 16)), Sextet((s[2] % 16) * 4)>>
          ELSE <<Sextet(s[1] \div 4), Sextet((s[1] % 4) * 16 + (s[2] \div 16)), Sextet((s[2] % 16) * 4 + (s[3] \div 64)), Sextet(s[3] % 64)>> \o B64(SubSeq(s, 4, Len(s)))
UnB64(t) == LET u(i) == UnSextet(t[i]) IN
            IF Len(t) < 2 THEN <<>>
            ELSE <<u(1) * 4 + (u(2) \div 16)>> \o (IF Len(t) < 3 THEN <<>> ELSE <<(u(2) % 16) * 16 + (u(3) \div 4)>>)
                 \o (IF Len(t) < 4 THEN <<>> ELSE <<(u(3) % 4) * 64 + u(4)>> \o UnB64(SubSeq(t, 5, Len(t))))
B64Len(n) == (n \div 3) * 4 + (IF n % 3 = 0 THEN 0 ELSE (n % 3) + 1)
\* ---- numbers as text: digits of n >= 0 in the radix, most significant first
Dig(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Digits(n, r) == IF n < r THEN <<Dig(n)>> ELSE Digits(n \div r, r) \o <<Dig(n % r)>>
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* n negative: by way of -(n + 1), so that the smallest integer works too
Itoa(n, r) == IF n >= 0 THEN Digits(n, r)
              ELSE LET m == -(n + 1)  q == m \div r  d == m % r IN           \* -n = m + 1
                   <<45>> \o (IF d + 1 < r THEN (IF q = 0 THEN <<>> ELSE Digits(q, r)) \o <<Dig(d + 1)>> ELSE Digits(q + 1, r) \o <<48>>)
\* ---- command lines: blanks separate, an argument may be quoted to contain blanks
\* (generated from the arguments: the line is built by joining them, so the specification is simply the list)
\* ---- formats: {n} and {nn} are replaced by the n-th argument
Num(q) == IF Len(q) = 1 THEN q[1] - 48 ELSE (q[1] - 48) * 10 + q[2] - 48
IsDig(b) == b >= 48 /\ b <= 57
RECURSIVE Format(_, _)
Invalid == <<123, 73, 78, 86, 65, 76, 73, 68, 32, 80, 65, 82, 65, 77, 69, 84, 69, 82, 32>>     \* "{INVALID PARAMETER "
Format(s, args) ==
  IF s = <<>> THEN <<>>
  ELSE LET one == Len(s) >= 3 /\ s[1] = 123 /\ IsDig(s[2]) /\ s[3] = 125
           two == Len(s) >= 4 /\ s[1] = 123 /\ IsDig(s[2]) /\ IsDig(s[3]) /\ s[4] = 125
           n == IF one THEN Num(<<s[2]>>) ELSE Num(<<s[2], s[3]>>)
           out == IF n < Len(args) THEN args[n + 1] ELSE Invalid \o Digits(n, 10) \o <<125>> IN
       IF one THEN out \o Format(SubSeq(s, 4, Len(s)), args)
       ELSE IF two THEN out \o Format(SubSeq(s, 5, Len(s)), args)
       ELSE <<s[1]>> \o Format(Tail(s), args)
=============================================================================
