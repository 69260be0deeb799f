------------------------------- MODULE RWSpec -------------------------------
(* The reader-writer lock as its users see it.  A thread is idle or inside a call; inside a call the lock takes   *)
(* internal steps: a writer first claims the lock (from then on no new reader or writer is admitted) and is       *)
(* granted it once nobody else holds it.  A configuration is                                                       *)
(*   [h |-> what each thread holds: "-" nothing, "R" read, "W" write, "U" write on top of a read lock,             *)
(*    w |-> the claiming or holding writer (0: nobody), p |-> what each thread is doing]                           *)
(* p[t] = <<>> (idle), <<op>> (called), <<op, "c">> (writer: claimed, not granted), <<op, "x">> (gave up its read   *)
(* lock while upgrading) or <<op, "d", result>> (took effect, not returned yet).                                   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Threads
Idle == <<>>
RWStart == [h |-> [t \in Threads |-> "-"], w |-> 0, p |-> [t \in Threads |-> Idle]]
Others(c, t) == {u \in Threads \ {t} : c.h[u] # "-"}
Busy(c, t) == {u \in Threads \ {t} : c.p[u] # Idle}
Done(c, t, r, h, w) == [h |-> [c.h EXCEPT ![t] = h], w |-> w, p |-> [c.p EXCEPT ![t] = <<@[1], "d", r>>]]
Mark(c, t, m, h, w) == [h |-> [c.h EXCEPT ![t] = h], w |-> w, p |-> [c.p EXCEPT ![t] = <<@[1], m>>]]
Op(c, t) == c.p[t][1]
Fresh(c, t) == Len(c.p[t]) = 1
Ph(c, t) == IF Len(c.p[t]) < 2 THEN "-" ELSE c.p[t][2]
\* the calls a thread may make, given what it holds
Legal(c, t, op) ==
  /\ c.p[t] = Idle
  /\ CASE op \in {"Lock", "AttemptLock", "AttemptStrictLock", "RLock", "AttemptRLock"} -> c.h[t] = "-"
       [] op = "Unlock" -> c.h[t] = "W"
       [] op = "Downgrade" -> c.h[t] = "U"
       [] op \in {"RUnlock", "Upgrade", "AttemptUpgrade"} -> c.h[t] = "R"
       [] OTHER -> FALSE
Call(c, t, op) == [c EXCEPT !.p[t] = <<op>>]
\* internal steps of thread t
Steps(c, t) ==
  IF c.p[t] = Idle \/ Ph(c, t) = "d" THEN {} ELSE
  LET o == Op(c, t) IN
  \* claim
  (IF o \in {"Lock", "AttemptLock"} /\ Fresh(c, t) /\ c.w = 0 THEN {Mark(c, t, "c", "-", t)} ELSE {})
  \cup (IF o = "AttemptUpgrade" /\ Fresh(c, t) /\ c.w = 0 THEN {Mark(c, t, "c", "R", t)} ELSE {})
  \cup (IF o = "Upgrade" /\ Ph(c, t) \in {"-", "x"} /\ c.w = 0 THEN {Mark(c, t, "c", "R", t)} ELSE {})
  \* an upgrade that meets another writer steps back
  \cup (IF o = "Upgrade" /\ Fresh(c, t) /\ c.w # 0 THEN {Mark(c, t, "x", "-", c.w)} ELSE {})
  \* grant
  \cup (IF Ph(c, t) = "c" /\ Others(c, t) = {} THEN {Done(c, t, 1, IF o \in {"Upgrade", "AttemptUpgrade"} THEN "U" ELSE "W", t)} ELSE {})
  \* refusals
  \cup (IF o \in {"AttemptLock", "AttemptRLock", "AttemptUpgrade"} /\ Fresh(c, t) /\ c.w # 0 THEN {Done(c, t, 0, c.h[t], c.w)} ELSE {})
  \cup (IF o = "AttemptStrictLock" /\ (c.w # 0 \/ Others(c, t) # {} \/ Busy(c, t) # {}) THEN {Done(c, t, 0, "-", c.w)} ELSE {})
  \cup (IF o = "AttemptStrictLock" /\ c.w = 0 /\ Others(c, t) = {} THEN {Done(c, t, 1, "W", t)} ELSE {})
  \* readers
  \cup (IF o \in {"RLock", "AttemptRLock"} /\ c.w = 0 THEN {Done(c, t, 1, "R", c.w)} ELSE {})
  \* releases
  \cup (IF o = "Unlock" THEN {Done(c, t, 1, "-", 0)} ELSE {})
  \cup (IF o = "Downgrade" THEN {Done(c, t, 1, "R", 0)} ELSE {})
  \cup (IF o = "RUnlock" THEN {Done(c, t, 1, "-", c.w)} ELSE {})
Writers(c) == {t \in Threads : c.h[t] \in {"W", "U"}}
Readers(c) == {t \in Threads : c.h[t] = "R"}
Exclusive(c) == /\ Cardinality(Writers(c)) <= 1
                /\ Writers(c) # {} => Readers(c) = {} /\ c.w \in Writers(c)
Free(c) == c.w = 0 /\ \A t \in Threads : c.h[t] = "-"
=============================================================================
