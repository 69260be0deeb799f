------------------------------ MODULE XmlText ------------------------------
(* What an XML text means: a reader of character codes, written from the grammar.  An element is a record: its name n,   *)
(* the character data v directly inside it, joined; i and f, what that data reads as as a whole number and as the whole   *)
(* part of a decimal; its attributes a, each [n, v, i, f]; its child elements c, in order.                                *)
(* Readers take the text and a position and return <<result, position after it>>; position 0 stands for "not XML".        *)
EXTENDS Integers, Sequences
Ch(t, p) == IF p \in 1..Len(t) THEN t[p] ELSE -1
WS == {9, 10, 11, 12, 13, 32}
LT == 60
GT == 62
QUOT == 34
AMP == 38
RECURSIVE Skip(_, _), Until(_, _, _), Find(_, _, _), Digits(_, _, _, _), Quoted(_, _, _), Attrs(_, _, _), Content(_, _, _, _), Elem(_, _), Spaces(_, _)
Skip(t, p) == IF Ch(t, p) \in WS THEN Skip(t, p + 1) ELSE p
Until(t, p, S) == IF Ch(t, p) = -1 \/ Ch(t, p) \in S THEN p ELSE Until(t, p + 1, S)
Word(t, p, w) == p + Len(w) - 1 <= Len(t) /\ \A k \in 1..Len(w) : t[p + k - 1] = w[k]
Find(t, p, w) == IF p > Len(t) THEN 0 ELSE IF Word(t, p, w) THEN p ELSE Find(t, p + 1, w)                  \* first place of w from p on
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Dig(c) == IF c \in 48..57 THEN c - 48 ELSE -1
Digits(t, p, b, acc) == LET d == IF b = 16 THEN Hex(Ch(t, p)) ELSE Dig(Ch(t, p)) IN IF d < 0 THEN acc ELSE Digits(t, p + 1, b, acc * b + d)
(* the whole number a text starts with *)
True == <<116, 114, 117, 101>>
Number(s) == IF Word(s, 1, <<48, 120>>) THEN Digits(s, 3, 16, 0)
             ELSE LET p == Skip(s, 1) IN IF Ch(s, p) = 45 THEN 0 - Digits(s, p + 1, 10, 0) ELSE Digits(s, p, 10, 0)
FloatOf(s) == LET p == Skip(s, 1) IN IF Word(s, p, <<48, 120>>) THEN Digits(s, p + 2, 16, 0) ELSE Number(s)
IntOf(s) == IF s = True THEN 1 ELSE Number(s)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
(* a reference at an ampersand: <<the bytes it stands for, position after it>> *)
Entity(t, p) == IF Word(t, p, <<38, 108, 116, 59>>) THEN <<<<60>>, p + 4>>
                ELSE IF Word(t, p, <<38, 103, 116, 59>>) THEN <<<<62>>, p + 4>>
                ELSE IF Word(t, p, <<38, 97, 109, 112, 59>>) THEN <<<<38>>, p + 5>>
                ELSE IF Word(t, p, <<38, 97, 112, 111, 115, 59>>) THEN <<<<39>>, p + 6>>
                ELSE IF Word(t, p, <<38, 113, 117, 111, 116, 59>>) THEN <<<<34>>, p + 6>>
                ELSE LET q == Find(t, p, <<59>>) IN
                     IF q = 0 THEN <<<<>>, 0>>
                     ELSE IF Word(t, p, <<38, 35, 120>>) THEN <<Utf8(Digits(t, p + 3, 16, 0)), q + 1>>
                     ELSE IF Word(t, p, <<38, 35>>) THEN <<Utf8(Digits(t, p + 2, 10, 0)), q + 1>>
                     ELSE <<<<>>, 0>>
Quoted(t, p, acc) == IF Ch(t, p) \in {-1, LT} THEN <<acc, 0>>
                     ELSE IF Ch(t, p) = QUOT THEN <<acc, p + 1>>
                     ELSE IF Ch(t, p) = AMP THEN LET x == Entity(t, p) IN IF x[2] = 0 THEN <<acc, 0>> ELSE Quoted(t, x[2], acc \o x[1])
                     ELSE Quoted(t, p + 1, Append(acc, t[p]))
Val(s) == [v |-> s, i |-> IntOf(s), f |-> FloatOf(s)]
Attr(n, s) == [n |-> n, v |-> s, i |-> IntOf(s), f |-> FloatOf(s)]
(* attributes up to the end of a tag *)
Attrs(t, p, acc) == LET q == Skip(t, p) IN
                    IF Ch(t, q) \in {-1, GT, 47, 63} THEN <<acc, IF q > Len(t) THEN 0 ELSE q>>
                    ELSE LET m == Until(t, q, WS \cup {61, GT, 47})
                             eq == Skip(t, m)
                             o == Skip(t, eq + 1)
                             x == Quoted(t, o + 1, <<>>) IN
                         IF Ch(t, eq) # 61 \/ Ch(t, o) # QUOT \/ x[2] = 0 THEN <<acc, 0>>
                         ELSE Attrs(t, x[2], Append(acc, Attr(SubSeq(t, q, m - 1), x[1])))
Nothing == [n |-> <<>>, v |-> <<>>, i |-> 0, f |-> 0, a |-> <<>>, c |-> <<>>]
(* character data and elements up to an end tag or the end of the text: <<data, elements, position>> *)
Content(t, p, v, c) ==
  IF p > Len(t) \/ Word(t, p, <<LT, 47>>) THEN <<v, c, p>>
  ELSE IF Word(t, p, <<LT, 33, 45, 45>>) THEN LET q == Find(t, p + 4, <<45, 45, GT>>) IN IF q = 0 THEN <<v, c, 0>> ELSE Content(t, q + 3, v, c)
  ELSE IF t[p] = LT THEN LET x == Elem(t, p) IN IF x[2] = 0 THEN <<v, c, 0>> ELSE Content(t, x[2], v, Append(c, x[1]))
  ELSE IF t[p] = AMP THEN LET x == Entity(t, p) IN IF x[2] = 0 THEN <<v, c, 0>> ELSE Content(t, x[2], v \o x[1], c)
  ELSE Content(t, p + 1, Append(v, t[p]), c)
Node(n, v, a, c) == [n |-> n, v |-> v, i |-> IntOf(v), f |-> FloatOf(v), a |-> a, c |-> c]
Elem(t, p) ==
  LET s == Skip(t, p + 1)
      m == Until(t, s, WS \cup {GT, 47})
      n == SubSeq(t, s, m - 1)
      at == Attrs(t, m, <<>>)
      q == at[2] IN
  IF q = 0 \/ n = <<>> THEN <<Nothing, 0>>
  ELSE IF Ch(t, q) = 47 THEN (IF Ch(t, q + 1) = GT THEN <<Node(n, <<>>, at[1], <<>>), q + 2>> ELSE <<Nothing, 0>>)
  ELSE IF Ch(t, q) # GT THEN <<Nothing, 0>>
  ELSE LET in == Content(t, q + 1, <<>>, <<>>)
           s2 == Skip(t, in[3] + 2)
           m2 == Until(t, s2, WS \cup {GT})
           z == Skip(t, m2) IN
       IF in[3] = 0 \/ in[3] > Len(t) \/ SubSeq(t, s2, m2 - 1) # n \/ Ch(t, z) # GT THEN <<Nothing, 0>>
       ELSE <<Node(n, in[1], at[1], in[2]), z + 1>>
(* a whole text; the data outside every element does not count *)
XmlName == <<120, 109, 108>>
Doc(t) == LET p == Skip(t, 1)
              head == Word(t, p, <<LT, 63>>)
              m == Until(t, p + 2, WS \cup {63})
              at == Attrs(t, m, <<>>)
              ok == ~head \/ (at[2] # 0 /\ Word(t, at[2], <<63, GT>>))
              in == Content(t, IF head THEN at[2] + 2 ELSE p, <<>>, <<>>) IN
          IF ~ok THEN <<Nothing, 0>>
          ELSE <<[Nothing EXCEPT !.n = (IF head THEN SubSeq(t, p + 2, m - 1) ELSE XmlName), !.a = (IF head THEN at[1] ELSE <<>>), !.c = in[2]],
                 IF in[3] = 0 \/ in[3] <= Len(t) THEN 0 ELSE in[3]>>
(* two elements that are the same but for blanks around their data (which pretty printing adds) *)
Spaces(s, p) == IF p >= 1 /\ Ch(s, p) \in WS THEN Spaces(s, p - 1) ELSE p
Trim(s) == LET p == Skip(s, 1) q == Spaces(s, Len(s)) IN IF p > q THEN <<>> ELSE SubSeq(s, p, q)
Bare(a) == [k \in 1..Len(a) |-> <<a[k].n, a[k].v>>]
RECURSIVE Same(_, _, _)
Same(x, y, pretty) == /\ x.n = y.n /\ Bare(x.a) = Bare(y.a) /\ Len(x.c) = Len(y.c)
                      /\ IF pretty /\ x.c # <<>> THEN Trim(x.v) = Trim(y.v) ELSE (x.v = y.v \/ (Trim(x.v) = <<>> /\ Trim(y.v) = <<>>))
                      /\ \A k \in 1..Len(x.c) : Same(x.c[k], y.c[k], pretty)
=============================================================================
