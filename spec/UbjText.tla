------------------------------ MODULE UbjText ------------------------------
(* What UBJSON bytes mean: a reader written from the format's description (draft 12).  Values are <<tag, payload>> with *)
(* the tag's own byte: numbers keep their big-endian bytes, strings and high-precision numbers their bytes, arrays the   *)
(* sequence of values, objects the sequence of <<key, value>>.  Readers return <<value, next position>>; 0 is malformed. *)
EXTENDS Naturals, Integers, Sequences
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE -1
NoOp == 78
Fixed == [c \in {90, 84, 70, 105, 85, 73, 108, 76, 100, 68, 67} |->
            CASE c \in {90, 84, 70} -> 0 [] c \in {105, 85, 67} -> 1 [] c = 73 -> 2 [] c \in {108, 100} -> 4 [] OTHER -> 8]
Bad == <<<<90, <<>>>>, 0>>
RECURSIVE SkipNoOp(_, _), UVal(_, _, _), UElems(_, _, _, _, _), UMembers(_, _, _, _, _), BE(_)
SkipNoOp(t, i) == IF At(t, i) = NoOp THEN SkipNoOp(t, i + 1) ELSE i
BE(b) == IF b = <<>> THEN 0 ELSE BE(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
(* a length: <<n, next>>, n = -1 when it is not one (or is too long for any text here) *)
ULen(t, i0) == LET i == SkipNoOp(t, i0) c == At(t, i) IN
  IF c \notin {105, 85, 73, 108, 76} \/ i + Fixed[c] > Len(t) THEN <<-1, 0>>
  ELSE LET b == SubSeq(t, i + 1, i + Fixed[c]) IN
       IF c # 85 /\ Head(b) > 127 THEN <<-1, 0>>
       ELSE IF \E k \in 1..Len(b) - 2 : b[k] # 0 THEN <<-1, 0>> ELSE <<BE(b), i + Fixed[c] + 1>>
(* the optional type and count of a container: <<type or 0, count or -1, next>> *)
UHead(t, i) == LET ty == IF At(t, i) = 36 THEN At(t, i + 1) ELSE 0
                   j == IF ty = 0 THEN i ELSE i + 2
               IN IF At(t, j) = 35 THEN LET n == ULen(t, j + 1) IN <<ty, n[1], n[2]>>
                  ELSE IF ty = 0 THEN <<0, -1, j>> ELSE <<0, -1, 0>>
UElems(t, i, ty, n, acc) ==
  IF n = 0 THEN <<<<91, acc>>, i>>
  ELSE IF n < 0 /\ At(t, SkipNoOp(t, i)) = 93 THEN <<<<91, acc>>, SkipNoOp(t, i) + 1>>
  ELSE LET r == UVal(t, i, ty) IN IF r[2] = 0 THEN Bad ELSE UElems(t, r[2], ty, n - 1, Append(acc, r[1]))
UMembers(t, i, ty, n, acc) ==
  IF n = 0 THEN <<<<123, acc>>, i>>
  ELSE IF n < 0 /\ At(t, SkipNoOp(t, i)) = 125 THEN <<<<123, acc>>, SkipNoOp(t, i) + 1>>
  ELSE LET k == ULen(t, i) IN
       IF k[1] < 0 \/ k[2] + k[1] - 1 > Len(t) THEN Bad
       ELSE LET r == UVal(t, k[2] + k[1], ty) IN
            IF r[2] = 0 THEN Bad ELSE UMembers(t, r[2], ty, n - 1, Append(acc, <<SubSeq(t, k[2], k[2] + k[1] - 1), r[1]>>))
UVal(t, i0, ty) ==
  LET i == IF ty = 0 THEN SkipNoOp(t, i0) ELSE i0
      c == IF ty = 0 THEN At(t, i) ELSE ty
      j == IF ty = 0 THEN i + 1 ELSE i
  IN IF c \in DOMAIN Fixed THEN (IF j + Fixed[c] - 1 > Len(t) THEN Bad ELSE <<<<c, SubSeq(t, j, j + Fixed[c] - 1)>>, j + Fixed[c]>>)
     ELSE IF c \in {83, 72} THEN LET n == ULen(t, j) IN IF n[1] < 0 \/ n[2] + n[1] - 1 > Len(t) THEN Bad ELSE <<<<c, SubSeq(t, n[2], n[2] + n[1] - 1)>>, n[2] + n[1]>>
     ELSE IF c = 91 THEN LET h == UHead(t, j) IN IF h[3] = 0 THEN Bad ELSE UElems(t, h[3], h[1], h[2], <<>>)
     ELSE IF c = 123 THEN LET h == UHead(t, j) IN IF h[3] = 0 THEN Bad ELSE UMembers(t, h[3], h[1], h[2], <<>>)
     ELSE Bad
(* the value itself, whatever representation was chosen: integers as eight bytes, booleans as one value *)
Wide(c, b) == LET s == IF c # 85 /\ Head(b) > 127 THEN 255 ELSE 0 IN [k \in 1..8 - Len(b) |-> s] \o b
RECURSIVE Norm(_)
Norm(v) == IF v[1] \in {105, 85, 73, 108, 76} THEN <<1, Wide(v[1], v[2])>>
           ELSE IF v[1] = 84 THEN <<2, 1>> ELSE IF v[1] = 70 THEN <<2, 0>>
           ELSE IF v[1] = 91 THEN <<91, [k \in 1..Len(v[2]) |-> Norm(v[2][k])]>>
           ELSE IF v[1] = 123 THEN <<123, [k \in 1..Len(v[2]) |-> <<v[2][k][1], Norm(v[2][k][2])>>]>>
           ELSE v
=============================================================================
