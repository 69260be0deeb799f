------------------------------ MODULE FifoSpec ------------------------------
(* An atomic first-in first-out queue shared by threads.  Configuration [q |-> contents, p |-> what each thread is  *)
(* doing]: <<>> idle, <<op, argument>> called, <<op, argument, result>> took effect.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Threads
Empty == -1
FStart == [q |-> <<>>, p |-> [t \in Threads |-> <<>>]]
FCall(c, t, op, v) == [c EXCEPT !.p[t] = <<op, v>>]
Took(c, t, q, r) == [q |-> q, p |-> [c.p EXCEPT ![t] = <<@[1], @[2], r>>]]
FSteps(c, t) ==
  IF Len(c.p[t]) # 2 THEN {} ELSE
  LET op == c.p[t][1] IN
  CASE op = "Push" -> {Took(c, t, Append(c.q, c.p[t][2]), 0)}
    [] op = "Pop" -> {IF c.q = <<>> THEN Took(c, t, <<>>, Empty) ELSE Took(c, t, Tail(c.q), Head(c.q))}
    [] op = "Peek" -> {Took(c, t, c.q, IF c.q = <<>> THEN 0 ELSE 1)}
    [] op = "Length" -> {Took(c, t, c.q, Len(c.q))}
    [] OTHER -> {}
=============================================================================
