------------------------------ MODULE TaskSpec ------------------------------
(* What a thread pool promises.  Tasks are asked for (Add) a number of times with an argument, possibly by another *)
(* task while it runs; executions start and finish; Wait is a barrier.  The state s is a record of functions       *)
(*   want[i], arg[i]   executions of task i asked for so far (from the call of Add on), and its argument           *)
(*   ack[i]            executions whose Add has returned                                                           *)
(*   beg[i], fin[i]    executions begun / finished                                                                 *)
(*   par[i], per[i]    the task that submits i while it runs (0: none), how many executions each time              *)
(*   wait[t]           what thread t's pending Wait has to wait for                                                *)
EXTENDS Integers, Sequences, FiniteSets
Start == [want |-> <<>>, arg |-> <<>>, ack |-> <<>>, beg |-> <<>>, fin |-> <<>>, par |-> <<>>, per |-> <<>>, wait |-> <<>>, adding |-> <<>>]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Ids(s) == DOMAIN s.want
AddCall(s, t, i, n, a, p) ==
  [s EXCEPT !.want = Put(@, i, Get(@, i, 0) + n), !.arg = Put(@, i, a), !.ack = Put(@, i, Get(@, i, 0)), !.beg = Put(@, i, Get(@, i, 0)), !.fin = Put(@, i, Get(@, i, 0)),
            !.par = Put(@, i, p), !.per = Put(@, i, n), !.adding = Put(@, t, <<i, n>>)]
AddReturn(s, t) == [s EXCEPT !.ack[s.adding[t][1]] = @ + s.adding[t][2]]
CanBegin(s, i, a) == IF i \in Ids(s) THEN s.beg[i] < s.want[i] /\ s.arg[i] = a ELSE FALSE
Begin(s, i) == [s EXCEPT !.beg[i] = @ + 1]
CanFinish(s, i) == IF i \in Ids(s) THEN s.fin[i] < s.beg[i] ELSE FALSE
Finish(s, i) == [s EXCEPT !.fin[i] = @ + 1]
WaitCall(s, t) == [s EXCEPT !.wait = Put(@, t, s.ack)]
(* executions of i that a barrier placed when w was acknowledged covers: the acknowledged ones and those submitted by covered executions *)
RECURSIVE Covered(_, _, _)
Covered(s, w, i) == LET own == Get(w, i, 0) sub == IF s.par[i] = 0 THEN 0 ELSE s.per[i] * Covered(s, w, s.par[i]) IN IF own > sub THEN own ELSE sub
WaitDone(s, t) == \A i \in Ids(s) : s.fin[i] >= Covered(s, s.wait[t], i)
AllDone(s) == \A i \in Ids(s) : s.fin[i] = s.want[i] /\ s.beg[i] = s.want[i]
=============================================================================
