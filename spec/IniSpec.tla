------------------------------ MODULE IniSpec ------------------------------
(* INI storage: an ordered list of sections of ordered entries; names are <<class, spelling>> pairs and two names    *)
(* are the same when their class (the name up to ASCII case) is.  Sections of one name are kept together in the      *)
(* order they were added, likewise the entries of one key.  A section read from lines in front of the first header   *)
(* (class Headerless) has no header in the file and cannot be edited.  c / cm: comments in the file (numbers) attached to an   *)
(* entry's line or standing in a section's text; editing one thing leaves the comments of everything else alone.     *)
(* Two storages, 1 and 2; absent ones are Gone.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Headerless                \* the class of the section made of lines in front of the first header
Gone == [gone |-> TRUE, d |-> <<>>]
Doc(d) == [gone |-> FALSE, d |-> d]
Null == -1                         \* "no value": delete
At(d, c) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i].n[1] = c)           \* positions of the sections of class c
EAt(e, c) == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : e[i].k[1] = c)
Ins(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))               \* v right after element i
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
AddSec(d, n, cm) == LET p == At(d, n[1]) s == [n |-> n, e |-> <<>>, cm |-> cm] IN Ins(d, IF p = <<>> THEN Len(d) ELSE p[Len(p)], s)
AddEnt(e, k, v, c) == LET p == EAt(e, k[1]) IN Ins(e, IF p = <<>> THEN Len(e) ELSE p[Len(p)], [k |-> k, v |-> v, c |-> c])
Has(d, c, i) == i < Len(At(d, c))                                                   \* instances count from 0
Pos(d, c, i) == At(d, c)[i + 1]
CanEdit(d, c, i) == c # Headerless /\ Has(d, c, i)
RemSec(d, c, i) == Cut(d, Pos(d, c, i))
HasEnt(d, c, i, kc, ki) == Has(d, c, i) /\ ki < Len(EAt(d[Pos(d, c, i)].e, kc))
EPos(d, c, i, kc, ki) == EAt(d[Pos(d, c, i)].e, kc)[ki + 1]
InsEnt(d, c, i, k, v) == [d EXCEPT ![Pos(d, c, i)].e = AddEnt(@, k, v, 0)]
SetEnt(d, c, i, kc, ki, v) == [d EXCEPT ![Pos(d, c, i)].e[EPos(d, c, i, kc, ki)].v = v]
DelEnt(d, c, i, kc, ki) == [d EXCEPT ![Pos(d, c, i)].e = Cut(@, EPos(d, c, i, kc, ki))]
(* EditEntry: <<result, document>>; si = -1 adds the section first, ki = -1 inserts, v = Null deletes *)
Edit(d0, n, k, v, ki, si0) ==
  LET d == IF si0 = -1 THEN AddSec(d0, n, {}) ELSE d0
      si == IF si0 = -1 THEN Len(At(d, n[1])) - 1 ELSE si0
  IN IF ~CanEdit(d, n[1], si) THEN <<-1, d>>
     ELSE IF ki = -1 THEN <<0, InsEnt(d, n[1], si, k, v)>>
     ELSE IF ~HasEnt(d, n[1], si, k[1], ki) THEN <<-1, d>>
     ELSE IF v = Null THEN <<0, DelEnt(d, n[1], si, k[1], ki)>>
     ELSE <<0, SetEnt(d, n[1], si, k[1], ki, v)>>
Comments(d) == UNION {d[i].cm \cup {d[i].e[j].c : j \in 1..Len(d[i].e)} : i \in 1..Len(d)} \ {0}
(* what reloading has to agree on: per name the sequence of its sections, per key the sequence of its values *)
View(d) == UNION {LET p == At(d, c) IN {<<c, i, d[p[i]].n, LET e == d[p[i]].e IN UNION {LET q == EAt(e, kc) IN {<<kc, j, e[q[j]].k, e[q[j]].v>> : j \in 1..Len(q)} : kc \in {e[j].k[1] : j \in 1..Len(e)}}>> : i \in 1..Len(p)} : c \in {d[i].n[1] : i \in 1..Len(d)}}
Grouped(d) == \A i \in 1..Len(d) : \A j \in i..Len(d) : d[i].n[1] = d[j].n[1] => \A k \in i..j : d[k].n[1] = d[i].n[1]
=============================================================================
