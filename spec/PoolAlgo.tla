------------------------------ MODULE PoolAlgo ------------------------------
(* The thread pool's algorithm at the granularity of its atomic operations: task counter, queue, semaphore and the *)
(* signed run counter.  Main submits Script (task numbers; task t submits Nested[t] while it runs), waits, and       *)
(* destroys the pool.  Refines TaskSpec's promises: barrier, exactly once, and everybody ends.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers, Script, Tasks
Nested(t) == IF t = 1 THEN <<3>> ELSE <<>>     \* task 1 submits task 3 while it runs
Inst(t) == IF t = 2 THEN 2 ELSE 1              \* task 2 is submitted with two instances
VARIABLES queue, tasks, sem, runc, pc, cur, todo, left, beg, fin
vars == <<queue, tasks, sem, runc, pc, cur, todo, left, beg, fin>>
M == "main"
Procs == Workers \cup {M}
\* todo[p]: <<task, pushes left, posts left>> of the Add in progress; left: what main still has to do
Init == /\ queue = <<>> /\ tasks = 0 /\ sem = 0 /\ runc = Cardinality(Workers) /\ left = Script
        /\ pc = [p \in Procs |-> IF p = M THEN "next" ELSE "check"] /\ cur = [p \in Procs |-> 0] /\ todo = [p \in Procs |-> <<0, 0, 0>>]
        /\ beg = [t \in Tasks |-> 0] /\ fin = [t \in Tasks |-> 0]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
\* AddTask(t) by p
Add1(p, t) == tasks' = tasks + Inst(t) /\ todo' = [todo EXCEPT ![p] = <<t, Inst(t), Inst(t)>>]
AddStep(p, back) == /\ pc[p] = "add"
  /\ (LET d == todo[p] IN
     IF d[2] > 0 THEN queue' = Append(queue, d[1]) /\ todo' = [todo EXCEPT ![p] = <<d[1], d[2] - 1, d[3]>>] /\ UNCHANGED <<sem, pc>>
     ELSE IF d[3] > 0 THEN sem' = sem + 1 /\ todo' = [todo EXCEPT ![p] = <<d[1], 0, d[3] - 1>>] /\ UNCHANGED <<queue, pc>>
     ELSE Go(p, back) /\ UNCHANGED <<queue, sem, todo>>)
  /\ UNCHANGED <<tasks, runc, cur, left, beg, fin>>
\* executing the task in cur[p]; ret: where to continue popping
Exec(p, pop) ==
  \/ pc[p] = "begin" /\ beg' = [beg EXCEPT ![cur[p]] = @ + 1]
     /\ (IF Nested(cur[p]) # <<>> THEN Add1(p, Nested(cur[p])[1]) /\ Go(p, "add") ELSE Go(p, "end") /\ UNCHANGED <<tasks, todo>>)
     /\ UNCHANGED <<queue, sem, runc, cur, left, fin>>
  \/ pc[p] = "end" /\ fin' = [fin EXCEPT ![cur[p]] = @ + 1] /\ Go(p, "dec") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg>>
  \/ pc[p] = "dec" /\ tasks' = tasks - 1 /\ cur' = [cur EXCEPT ![p] = 0] /\ Go(p, pop) /\ UNCHANGED <<queue, sem, runc, todo, left, beg, fin>>
Pop(p, empty) == IF queue # <<>> THEN queue' = Tail(queue) /\ cur' = [cur EXCEPT ![p] = Head(queue)] /\ Go(p, "begin") ELSE UNCHANGED <<queue, cur>> /\ Go(p, empty)
Worker(w) ==
  \/ pc[w] = "check" /\ Go(w, IF runc > 0 THEN "wait" ELSE "leave") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg, fin>>
  \/ pc[w] = "wait" /\ sem > 0 /\ sem' = sem - 1 /\ Go(w, "pop") /\ UNCHANGED <<queue, tasks, runc, cur, todo, left, beg, fin>>
  \/ pc[w] = "pop" /\ Pop(w, "check") /\ UNCHANGED <<tasks, sem, runc, todo, left, beg, fin>>
  \/ Exec(w, "pop") \/ AddStep(w, "end")
  \/ pc[w] = "leave" /\ runc' = runc + 1 /\ Go(w, "ended") /\ UNCHANGED <<queue, tasks, sem, cur, todo, left, beg, fin>>
Main ==
  \/ pc[M] = "next" /\ left # <<>> /\ left' = Tail(left) /\ UNCHANGED <<queue, sem, runc, cur, beg, fin>>
     /\ (IF Head(left) = 0 THEN Go(M, "wpop") /\ UNCHANGED <<tasks, todo>> ELSE Add1(M, Head(left)) /\ Go(M, "add"))
  \/ pc[M] = "wpop" /\ Pop(M, "spin") /\ UNCHANGED <<tasks, sem, runc, todo, left, beg, fin>>
  \/ Exec(M, "wpop") \/ (IF cur[M] # 0 THEN AddStep(M, "end") ELSE AddStep(M, "next"))
  \/ pc[M] = "spin" /\ tasks = 0 /\ Go(M, "waited") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg, fin>>
  \/ pc[M] = "waited" /\ Go(M, IF left = <<>> THEN "stop" ELSE "next") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg, fin>>
  \/ pc[M] = "next" /\ left = <<>> /\ Go(M, "wpop") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg, fin>>
  \/ pc[M] = "stop" /\ runc' = -runc /\ todo' = [todo EXCEPT ![M] = <<0, 0, Cardinality(Workers)>>] /\ Go(M, "post") /\ UNCHANGED <<queue, tasks, sem, cur, left, beg, fin>>
  \/ pc[M] = "post" /\ todo[M][3] > 0 /\ sem' = sem + 1 /\ todo' = [todo EXCEPT ![M][3] = @ - 1] /\ UNCHANGED <<queue, tasks, runc, pc, cur, left, beg, fin>>
  \/ pc[M] = "post" /\ todo[M][3] = 0 /\ runc >= 0 /\ Go(M, "gone") /\ UNCHANGED <<queue, tasks, sem, runc, cur, todo, left, beg, fin>>
Done == pc[M] = "gone" /\ \A w \in Workers : pc[w] = "ended"
Next == Main \/ (\E w \in Workers : Worker(w)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in Workers : WF_vars(Worker(w))
\* promises
Submitted == {Script[i] : i \in 1..(Len(Script) - Len(left))} \ {0}
AllSub == Submitted \cup (IF 1 \in Submitted THEN {3} ELSE {})
Total(t) == LET k == Cardinality({i \in 1..(Len(Script) - Len(left)) : Script[i] = t}) IN IF t = 3 THEN Cardinality({i \in 1..(Len(Script) - Len(left)) : Script[i] \in {1, 3}}) ELSE k * Inst(t)
AtMost == \A t \in Tasks : fin[t] <= beg[t] /\ beg[t] <= Total(t)
Barrier == pc[M] = "waited" => \A t \in Tasks : fin[t] = Total(t)
Outlived == pc[M] = "gone" => \A w \in Workers : pc[w] = "ended"        \* nobody uses the pool after its destructor
Ends == <>Done
Exactly == Done => \A t \in Tasks : fin[t] = Total(t) /\ beg[t] = Total(t)
=============================================================================
