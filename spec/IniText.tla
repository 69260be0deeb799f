------------------------------ MODULE IniText ------------------------------
(* The meaning of INI text, as sequences of character codes: what loading a file gives.  A line means what its first *)
(* ; = or [ says: nothing, an entry, or a section header; values and headers end at a comment or the end of line.     *)
EXTENDS IniSpec
Blank(c) == c <= 32
RECURSIVE LTrim(_), RTrim(_), Split(_, _)
LTrim(s) == IF s # <<>> /\ Blank(Head(s)) THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstOf(s, C, from) == LET P == {i \in from..Len(s) : s[i] \in C} IN IF P = {} THEN Len(s) + 1 ELSE Min(P)
Split(s, acc) == LET i == FirstOf(s, {10}, 1) IN IF i > Len(s) THEN Append(acc, s) ELSE Split(SubSeq(s, i + 1, Len(s)), Append(acc, SubSeq(s, 1, i - 1)))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Name(s) == <<Lower(s), s>>
(* <<0>> nothing, <<1, name>> header, <<2, key, value>> entry *)
Meaning(ln) ==
  LET i == FirstOf(ln, {59, 61, 91}, 1) IN
  IF i > Len(ln) \/ ln[i] = 59 THEN <<0>>
  ELSE IF ln[i] = 61 THEN LET k == Trim(SubSeq(ln, 1, i - 1)) v == Trim(SubSeq(ln, i + 1, FirstOf(ln, {59}, i + 1) - 1)) IN IF k = <<>> THEN <<0>> ELSE <<2, k, v>>
  ELSE LET j == FirstOf(ln, {59, 93}, i + 1) IN IF (j <= Len(ln) /\ ln[j] = 59) \/ Trim(SubSeq(ln, i + 1, j - 1)) = <<>> THEN <<0>> ELSE <<1, Trim(SubSeq(ln, i + 1, j - 1))>>
RECURSIVE Doc0(_, _)
Doc0(g, acc) == IF g = <<>> THEN acc[1] ELSE
  LET x == Meaning(Head(g)) IN Doc0(Tail(g),
    CASE x[1] = 0 -> acc
      [] x[1] = 1 -> LET dd == AddSec(acc[1], Name(x[2]), {}) p == At(dd, Lower(x[2])) IN <<dd, p[Len(p)]>>
      [] x[1] = 2 -> LET b == IF acc[2] = 0 THEN <<AddSec(acc[1], Name(<<>>), {}), 1>> ELSE acc IN <<[b[1] EXCEPT ![b[2]].e = AddEnt(@, Name(x[2]), x[3], 0)], b[2]>>)
Parse(text) == Doc0(Split(text, <<>>), <<<<>>, 0>>)
=============================================================================
