----------------------------- MODULE TaskTrace -----------------------------
(* Histories of the real thread pool under the controlled scheduler. *)
EXTENDS TaskSpec, TraceIO
VARIABLES s, op, run, l
vars == <<s, op, run, l>>
e == Ev(run, l)
Is(o) == e.op = o
W == Runs[run].cfg.workers
TInit == run \in 1..Len(Runs) /\ l = 1 /\ s = Start /\ op = <<>>
N(n) == IF n = 0 THEN W ELSE n
Step == \/ Is("i") /\ e.a[2] = "Add" /\ op' = Put(op, e.a[1], Append(Get(op, e.a[1], <<>>), "Add")) /\ s' = AddCall(s, e.a[1], e.a[3][1], N(e.a[3][2]), e.a[3][3], e.a[3][4])
        \/ Is("i") /\ e.a[2] = "Wait" /\ op' = Put(op, e.a[1], Append(Get(op, e.a[1], <<>>), "Wait")) /\ s' = WaitCall(s, e.a[1])
        \/ Is("r") /\ LET t == e.a[1] k == op[t] o == k[Len(k)] IN
             /\ op' = [op EXCEPT ![t] = SubSeq(k, 1, Len(k) - 1)]
             /\ (IF o = "Add" THEN s' = AddReturn(s, t) ELSE WaitDone(s, t) /\ UNCHANGED s)
        \/ Is("S") /\ CanBegin(s, e.a[2], e.a[3]) /\ s' = Begin(s, e.a[2]) /\ UNCHANGED op
        \/ Is("F") /\ CanFinish(s, e.a[2]) /\ s' = Finish(s, e.a[2]) /\ UNCHANGED op
        \/ Is("Busy") /\ e.r[1] = 0 /\ UNCHANGED <<s, op>>
        \/ Is("End") /\ e.r[1] = 0 /\ e.r[2] = 0 /\ AllDone(s) /\ UNCHANGED <<s, op>>   \* workers ended, callables destroyed once, memory returned
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
