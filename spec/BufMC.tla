------------------------------- MODULE BufMC -------------------------------
(* Small memory streams, explored completely: reading never leaves the array, what is read is what lies between the positions. *)
EXTENDS BufSpec, FiniteSets
CONSTANTS N
VARIABLES seen                                                    \* ghost: <<position before, bytes>> of the last read
Bytes == {1, 200}
Seqs(n) == UNION {[1..k -> Bytes] : k \in 0..n}
Init == /\ unit \in {1, 2} /\ base \in 0..1 /\ pos = 0 /\ seen = <<>>
        /\ all \in {s \in Seqs(4) : Len(s) % unit = 0 /\ Len(s) \div unit >= base}
Next == \/ \E r \in Bytes \cup {-1} : (Getc(r) \/ Bump(r) \/ Next1(r) \/ Unget(r)) /\ seen' = <<>>
        \/ \E n \in 0..3 : \E r \in Seqs(3) : Getn(n, r) /\ seen' = <<pos, r>>
        \/ \E c \in Bytes, r \in Bytes \cup {-1} : Putback(c, r) /\ seen' = <<>>
        \/ \E o \in -2..3, w \in {"beg", "cur", "end"}, r \in -1..N + 2 : SeekOff(o, w, r) /\ seen' = <<>>
        \/ \E s \in Seqs(2) : Len(all) + Len(s) <= N /\ Put(s, Len(s)) /\ seen' = <<>>
Spec == Init /\ [][Next]_<<bv, seen>>
Inside == pos \in 0..Len(Text) /\ Len(Text) <= Len(all) /\ (base * unit) + Len(Text) = Len(Whole(all)) /\ Len(all) - Len(Whole(all)) < unit
Faithful == seen # <<>> => seen[1] + Len(seen[2]) = pos /\ seen[2] = SubSeq(Text, seen[1] + 1, pos)
(* every call that reads has exactly one answer, and writing never loses what was there *)
Decided == /\ Cardinality({r \in Bytes \cup {-1} : r = Peek(pos)}) = 1
           /\ \A o \in -2..3, w \in {"beg", "cur", "end"} : Cardinality({r \in -1..N + 2 : LET p == o + (CASE w = "beg" -> 0 [] w = "cur" -> pos [] w = "end" -> Len(Text)) IN IF p \in 0..Len(Text) THEN r = p ELSE r = -1}) = 1
Kept == [][Len(all') >= Len(all) /\ SubSeq(all', 1, Len(all)) = all /\ base' = base]_<<bv, seen>>
=============================================================================
