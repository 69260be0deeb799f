------------------------------ MODULE JsonText ------------------------------
(* What JSON text means: a reader of character codes, written from the grammar (RFC 8259) and not from the code.       *)
(* Values are <<kind, payload>>: <<"s", bytes>>, <<"i", digits>>, <<"d", plain decimal>>, <<"b", 0 or 1>>, <<"n", 0>>,   *)
(* <<"a", values>>, <<"o", sequence of <<key bytes, value>> >>.  Every reader takes the text and a position and returns  *)
(* <<value, position after it>>; the position 0 stands for "not JSON".                                                  *)
EXTENDS Naturals, Integers, Sequences
Ch(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE -1
WS == {9, 10, 13, 32}
Digit == 48..57
Fail == <<<<"n", 0>>, 0>>
RECURSIVE Skip(_, _), Run(_, _, _), StrBody(_, _, _), Val(_, _), Elems(_, _, _), Members(_, _, _), Zeros(_), StripTail(_), StripHead(_)
Skip(t, i) == IF Ch(t, i) \in WS THEN Skip(t, i + 1) ELSE i
Run(t, i, S) == IF Ch(t, i) \in S THEN Run(t, i + 1, S) ELSE i               \* first position not in S
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0
Hex4(t, i) == Hex(Ch(t, i)) * 4096 + Hex(Ch(t, i + 1)) * 256 + Hex(Ch(t, i + 2)) * 16 + Hex(Ch(t, i + 3))
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Simple == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
             CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
StrBody(t, i, acc) ==                                                          \* i is just past the opening quote
  LET c == Ch(t, i) IN
  IF c < 32 THEN Fail                                                          \* the end of the text, or a raw control character
  ELSE IF c = 34 THEN <<<<"s", acc>>, i + 1>>
  ELSE IF c # 92 THEN StrBody(t, i + 1, Append(acc, c))
  ELSE LET x == Ch(t, i + 1) IN
       IF x \in DOMAIN Simple THEN StrBody(t, i + 2, Append(acc, Simple[x]))
       ELSE IF x # 117 THEN Fail
       ELSE LET u == Hex4(t, i + 2) IN
            IF u \in 55296..56319 /\ Ch(t, i + 6) = 92 /\ Ch(t, i + 7) = 117 /\ Hex4(t, i + 8) \in 56320..57343
            THEN StrBody(t, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (Hex4(t, i + 8) - 56320)))
            ELSE StrBody(t, i + 6, acc \o Utf8(u))
(* a number with a fraction or an exponent, as a plain decimal: no exponent, no zeros that mean nothing *)
Zeros(n) == IF n <= 0 THEN <<>> ELSE Append(Zeros(n - 1), 48)
StripTail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripHead(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN StripHead(Tail(s)) ELSE s
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE Num(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
Plain(neg, ip, fp, e) ==
  LET all == ip \o fp
      k   == Len(ip) + e                                                       \* digits before the point
      pad == Zeros(0 - k) \o all \o Zeros(k - Len(all))
      kk  == IF k < 0 THEN 0 ELSE k
      I   == StripHead(IF kk = 0 THEN <<48>> ELSE SubSeq(pad, 1, kk))
      F   == StripTail(SubSeq(pad, kk + 1, Len(pad)))
  IN (IF neg THEN <<45>> ELSE <<>>) \o I \o (IF F = <<>> THEN <<>> ELSE <<46>> \o F)
NumVal(t, i) ==
  LET neg == Ch(t, i) = 45
      a == IF neg THEN i + 1 ELSE i
      b == Run(t, a, Digit)
      f == IF Ch(t, b) = 46 THEN Run(t, b + 1, Digit) ELSE b
      hase == Ch(t, f) \in {69, 101}
      es == IF hase /\ Ch(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      g == IF hase THEN Run(t, es, Digit) ELSE f
      ev == IF hase THEN (IF Ch(t, f + 1) = 45 THEN 0 - Num(SubSeq(t, es, g - 1)) ELSE Num(SubSeq(t, es, g - 1))) ELSE 0
  IN IF b = a \/ (f # b /\ f = b + 1) \/ (hase /\ g = es) THEN Fail
     ELSE IF f = b /\ ~hase THEN <<<<"i", SubSeq(t, i, b - 1)>>, b>>
     ELSE <<<<"d", Plain(neg, SubSeq(t, a, b - 1), IF f > b THEN SubSeq(t, b + 1, f - 1) ELSE <<>>, ev)>>, g>>
Word(t, i, w) == \A k \in 1..Len(w) : Ch(t, i + k - 1) = w[k]
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>
Elems(t, i, acc) ==                                                            \* i at the start of an element
  LET r == Val(t, i) IN
  IF r[2] = 0 THEN Fail
  ELSE LET j == Skip(t, r[2]) IN
       IF Ch(t, j) = 44 THEN Elems(t, j + 1, Append(acc, r[1]))
       ELSE IF Ch(t, j) = 93 THEN <<<<"a", Append(acc, r[1])>>, j + 1>> ELSE Fail
Members(t, i, acc) ==
  LET k0 == Skip(t, i) IN
  IF Ch(t, k0) # 34 THEN Fail
  ELSE LET k == StrBody(t, k0 + 1, <<>>) IN
  IF k[2] = 0 THEN Fail
  ELSE LET c == Skip(t, k[2]) IN
  IF Ch(t, c) # 58 THEN Fail
  ELSE LET r == Val(t, c + 1) IN
  IF r[2] = 0 THEN Fail
  ELSE LET j == Skip(t, r[2]) m == Append(acc, <<k[1][2], r[1]>>) IN
       IF Ch(t, j) = 44 THEN Members(t, j + 1, m)
       ELSE IF Ch(t, j) = 125 THEN <<<<"o", m>>, j + 1>> ELSE Fail
Val(t, i0) ==
  LET i == Skip(t, i0) c == Ch(t, i) IN
  CASE c = 34 -> StrBody(t, i + 1, <<>>)
    [] c = 91 -> (LET j == Skip(t, i + 1) IN IF Ch(t, j) = 93 THEN <<<<"a", <<>>>>, j + 1>> ELSE Elems(t, j, <<>>))
    [] c = 123 -> (LET j == Skip(t, i + 1) IN IF Ch(t, j) = 125 THEN <<<<"o", <<>>>>, j + 1>> ELSE Members(t, j, <<>>))
    [] c \in Digit \cup {45} -> NumVal(t, i)
    [] Word(t, i, TrueW) -> <<<<"b", 1>>, i + 4>>
    [] Word(t, i, FalseW) -> <<<<"b", 0>>, i + 5>>
    [] Word(t, i, NullW) -> <<<<"n", 0>>, i + 4>>
    [] OTHER -> Fail
(* the whole text is one value *)
IsDoc(t, v) == LET r == Val(t, 1) IN r[2] # 0 /\ r[1] = v /\ Skip(t, r[2]) = Len(t) + 1
=============================================================================
