------------------------------ MODULE RefSpec -------------------------------
(* Counted and owning pointers.  Objects are numbered in order of creation and never reuse a number.          *)
(*  ref pointers: ptr[i] = object or 0; link[o] = object that o itself refers to (a counted pointer inside o); *)
(*                extra[o] = references taken by hand.  An object is alive iff it has been created and         *)
(*                something alive still refers to it (or nothing has ever referred to it yet: fresh).          *)
(*  owner pointers: own[i] = <<object, owns?>>.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NSlots, MaxObj
VARIABLES ptr, link, extra, alive, fresh, own
rvars == <<ptr, link, extra, alive, fresh, own>>
RInit == ptr = [i \in 1..NSlots |-> 0] /\ link = <<>> /\ extra = <<>> /\ alive = {} /\ fresh = {} /\ own = [i \in 1..NSlots |-> <<0, FALSE>>]
Count(o, p, ln, ex, al) == Cardinality({i \in 1..NSlots : p[i] = o}) + Cardinality({x \in al : ln[x] = o}) + ex[o]
RECURSIVE Settle(_, _, _, _, _)
Settle(p, ln, ex, al, fr) == LET dead == {o \in al \ fr : Count(o, p, ln, ex, al) = 0} IN IF dead = {} THEN al ELSE Settle(p, ln, ex, al \ dead, fr)
Refresh(p, ln, ex, fr) == {o \in fr : Count(o, p, ln, ex, alive) = 0}
\* the common step: pointers become p, links ln, hand-held counts ex
Now(p, ln, ex) == /\ ptr' = p /\ link' = ln /\ extra' = ex
                  /\ fresh' = Refresh(p, ln, ex, fresh)
                  /\ alive' = Settle(p, ln, ex, alive, fresh')
                  /\ UNCHANGED own
New == /\ link' = Append(link, 0) /\ extra' = Append(extra, 0) /\ alive' = alive \cup {Len(link) + 1} /\ fresh' = fresh \cup {Len(link) + 1} /\ UNCHANGED <<ptr, own>>
Assign(i, o) == o \in alive \cup {0} /\ Now([ptr EXCEPT ![i] = o], link, extra)
CopyAsg(i, j) == Now([ptr EXCEPT ![i] = ptr[j]], link, extra)
MoveAsg(i, j) == Now(IF i = j THEN ptr ELSE [ptr EXCEPT ![i] = ptr[j], ![j] = 0], link, extra)
Link(o, i) == o \in alive /\ Now(ptr, [link EXCEPT ![o] = ptr[i]], extra)
Advance(i) == ptr[i] # 0 /\ Now([ptr EXCEPT ![i] = link[ptr[i]]], link, extra)      \* p = p->next
Grab(o, n, ret) == o \in alive /\ ret = Count(o, ptr, link, extra, alive) + n /\ Now(ptr, link, [extra EXCEPT ![o] = @ + n])
Drop(o, ret) == o \in alive /\ extra[o] > 0 /\ ret = Count(o, ptr, link, extra, alive) - 1 /\ Now(ptr, link, [extra EXCEPT ![o] = @ - 1])
\* owner pointers
Del(i) == IF own[i][2] THEN {own[i][1]} ELSE {}
OwnNew(i) == /\ own' = [own EXCEPT ![i] = <<Len(link) + 1, TRUE>>] /\ alive' = (alive \ Del(i)) \cup {Len(link) + 1}
             /\ link' = Append(link, 0) /\ extra' = Append(extra, 0) /\ UNCHANGED <<ptr, fresh>>
OwnCopy(i, j) == /\ own' = IF i = j THEN own ELSE [own EXCEPT ![i] = <<own[j][1], FALSE>>]
                 /\ alive' = (IF i = j THEN alive ELSE alive \ Del(i)) /\ UNCHANGED <<ptr, link, extra, fresh>>
OwnMove(i, j) == /\ own' = IF i = j THEN own ELSE [own EXCEPT ![i] = own[j], ![j] = <<own[j][1], FALSE>>]
                 /\ alive' = (IF i = j THEN alive ELSE alive \ Del(i)) /\ UNCHANGED <<ptr, link, extra, fresh>>
OwnBorrow(i, o) == own' = [own EXCEPT ![i] = <<o, FALSE>>] /\ alive' = alive \ Del(i) /\ UNCHANGED <<ptr, link, extra, fresh>>
OwnReset(i) == own' = [own EXCEPT ![i] = <<0, FALSE>>] /\ alive' = alive \ Del(i) /\ UNCHANGED <<ptr, link, extra, fresh>>

Ids == 1..Len(link)
RNext == \/ Len(link) < MaxObj /\ New
         \/ \E i, j \in 1..NSlots : CopyAsg(i, j) \/ MoveAsg(i, j) \/ Advance(i)
         \/ \E i \in 1..NSlots : \E o \in Ids \cup {0} : (o # 0 => o \in alive) /\ Assign(i, o)
         \/ \E o \in Ids : \E i \in 1..NSlots : Link(o, i)
         \/ \E o \in Ids : extra[o] < 1 /\ \E r \in 1..6 : Grab(o, 1, r)
         \/ \E o \in Ids : \E r \in 0..6 : Drop(o, r)
ONext == \/ \E i \in 1..NSlots : (Len(link) < MaxObj /\ OwnNew(i)) \/ OwnReset(i) \/ (\E o \in alive : OwnBorrow(i, o))
         \/ \E i, j \in 1..NSlots : OwnCopy(i, j) \/ OwnMove(i, j)
\* counted pointers never dangle and nothing unreferenced survives; owned objects are alive and have one owner
RefOK == /\ \A i \in 1..NSlots : ptr[i] # 0 => ptr[i] \in alive
         /\ \A o \in alive : link[o] # 0 => link[o] \in alive
         /\ \A o \in alive \ fresh : Count(o, ptr, link, extra, alive) > 0
OwnOK == /\ \A i, j \in 1..NSlots : own[i][2] /\ own[j][2] /\ i # j => own[i][1] # own[j][1]
         /\ {own[i][1] : i \in {k \in 1..NSlots : own[k][2]}} = alive
=============================================================================
