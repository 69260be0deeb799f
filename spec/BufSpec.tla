------------------------------ MODULE BufSpec ------------------------------
(* A memory stream reads the bytes of an array from element base on and, if it can write, appends to that array.           *)
(*   all   every byte of the array and every byte written after it, whole elements or not                                  *)
(*   pos   where reading goes on, counted from the first byte that can be read                                             *)
(* Only whole elements (of U bytes) are part of the array, and only these can be read.                                     *)
(* A function stream (StreamBufFunction) gives its source, or hands on what it is given, byte by byte through Conv.         *)
EXTENDS Integers, Sequences
VARIABLES all, base, pos, unit
bv == <<all, base, pos, unit>>
Mini(a, b) == IF a < b THEN a ELSE b
Whole(s) == SubSeq(s, 1, (Len(s) \div unit) * unit)
Text == LET w == Whole(all) IN SubSeq(w, base * unit + 1, Len(w))        \* what can be read
Left == Len(Text) - pos
Conv(b) == (b + 7) % 256
Same == UNCHANGED bv
At(p) == pos' = p /\ UNCHANGED <<all, base, unit>>
Peek(p) == IF p < Len(Text) THEN Text[p + 1] ELSE -1
Getc(r) == r = Peek(pos) /\ Same
Bump(r) == r = Peek(pos) /\ At(Mini(pos + 1, Len(Text)))
Next1(r) == LET p == Mini(pos + 1, Len(Text)) IN r = Peek(p) /\ At(p)
Getn(n, r) == LET k == Mini(n, Left) IN r = SubSeq(Text, pos + 1, pos + k) /\ At(pos + k)
Unget(r) == IF pos = 0 THEN r = -1 /\ Same ELSE r = Text[pos] /\ At(pos - 1)
Putback(c, r) == IF pos > 0 /\ Text[pos] = c THEN r = c /\ At(pos - 1) ELSE r = -1 /\ Same
Seek(p, r) == IF p \in 0..Len(Text) THEN r = p /\ At(p) ELSE r = -1 /\ Same
SeekOff(off, way, r) == Seek(off + (CASE way = "beg" -> 0 [] way = "cur" -> pos [] way = "end" -> Len(Text)), r)
Avail(r) == (IF Left > 0 THEN r = Left ELSE r \in {0, -1}) /\ Same
Put(s, r) == r = Len(s) /\ all' = all \o s /\ UNCHANGED <<base, pos, unit>>
(* a read that comes through a window of the source may not be able to go back: it does, or it stays where it is *)
UngetSome(r) == Unget(r) \/ (r = -1 /\ Same)
AvailSome(r) == r \in -1..Left /\ Same
(* what has been handed on is the beginning of what was written; a flush leaves nothing behind *)
Handed(s, out, flushed) == Len(out) <= Len(s) /\ out = [k \in 1..Len(out) |-> Conv(s[k])] /\ (flushed => Len(out) = Len(s))
=============================================================================
