------------------------------ MODULE MpmcAlgo ------------------------------
(* MicroLockQueue: a producer spin flag, a consumer spin flag, and a dummy node at div; producers and consumers    *)
(* only meet at div.next when the queue is empty.  Threads push tagged values <<thread, k>> or pop.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Budget, Nodes
VARIABLES nx, item, alive, div, last, pf, cf, len, pc, v, left, k, log, got, bad
vars == <<nx, item, alive, div, last, pf, cf, len, pc, v, left, k, log, got, bad>>
Init == /\ nx = [n \in Nodes |-> 0] /\ item = [n \in Nodes |-> <<>>] /\ alive = {1} /\ div = 1 /\ last = 1 /\ pf = FALSE /\ cf = FALSE /\ len = 0
        /\ pc = [t \in Threads |-> "idle"] /\ v = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Budget] /\ k = [t \in Threads |-> 0] /\ log = <<>> /\ got = <<>> /\ bad = FALSE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
Use(n) == bad' = (bad \/ n \notin alive)
Step(t) ==
  \/ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ (Go(t, "new") \/ Go(t, "clock")) /\ UNCHANGED <<nx, item, alive, div, last, pf, cf, len, v, k, log, got, bad>>
  \* push: the node is complete before the flag is taken
  \/ pc[t] = "new" /\ Nodes \ alive # {} /\ (LET m == Low(Nodes \ alive) IN v' = [v EXCEPT ![t] = m] /\ alive' = alive \cup {m} /\ nx' = [nx EXCEPT ![m] = 0] /\ item' = [item EXCEPT ![m] = <<t, k[t] + 1>>])
     /\ k' = [k EXCEPT ![t] = @ + 1] /\ Go(t, "plock") /\ UNCHANGED <<div, last, pf, cf, len, left, log, got, bad>>
  \/ pc[t] = "plock" /\ ~pf /\ pf' = TRUE /\ Go(t, "plink") /\ UNCHANGED <<nx, item, alive, div, last, cf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "plink" /\ Use(last) /\ nx' = [nx EXCEPT ![last] = v[t]] /\ log' = Append(log, item[v[t]]) /\ Go(t, "plast") /\ UNCHANGED <<item, alive, div, last, pf, cf, len, v, left, k, got>>
  \/ pc[t] = "plast" /\ last' = v[t] /\ Go(t, "pun") /\ UNCHANGED <<nx, item, alive, div, pf, cf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "pun" /\ pf' = FALSE /\ Go(t, "pinc") /\ UNCHANGED <<nx, item, alive, div, last, cf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "pinc" /\ len' = len + 1 /\ Go(t, "idle") /\ UNCHANGED <<nx, item, alive, div, last, pf, cf, v, left, k, log, got, bad>>
  \* pop
  \/ pc[t] = "clock" /\ ~cf /\ cf' = TRUE /\ Go(t, "cnext") /\ UNCHANGED <<nx, item, alive, div, last, pf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "cnext" /\ Use(div) /\ v' = [v EXCEPT ![t] = div] /\ Go(t, IF nx[div] = 0 THEN "cempty" ELSE "ctake") /\ UNCHANGED <<nx, item, alive, div, last, pf, cf, len, left, k, log, got>>
  \/ pc[t] = "cempty" /\ cf' = FALSE /\ Go(t, "idle") /\ UNCHANGED <<nx, item, alive, div, last, pf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "ctake" /\ Use(nx[div]) /\ got' = Append(got, item[nx[div]]) /\ Go(t, "cdiv") /\ UNCHANGED <<nx, item, alive, div, last, pf, cf, len, v, left, k, log>>
  \/ pc[t] = "cdiv" /\ div' = nx[div] /\ Go(t, "cun") /\ UNCHANGED <<nx, item, alive, last, pf, cf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "cun" /\ cf' = FALSE /\ Go(t, "cfree") /\ UNCHANGED <<nx, item, alive, div, last, pf, len, v, left, k, log, got, bad>>
  \/ pc[t] = "cfree" /\ Use(v[t]) /\ alive' = alive \ {v[t]} /\ nx' = [nx EXCEPT ![v[t]] = -1] /\ item' = [item EXCEPT ![v[t]] = <<>>] /\ Go(t, "cdec") /\ UNCHANGED <<div, last, pf, cf, len, v, left, k, log, got>>
  \/ pc[t] = "cdec" /\ len' = len - 1 /\ Go(t, "idle") /\ UNCHANGED <<nx, item, alive, div, last, pf, cf, v, left, k, log, got, bad>>
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Fifo == Len(got) <= Len(log) /\ got = SubSeq(log, 1, Len(got))     \* delivered exactly in the order the pushes took effect
PerThread == \A i, j \in 1..Len(log) : (i < j /\ log[i][1] = log[j][1]) => log[i][2] < log[j][2]
Counted == Done => len = Len(log) - Len(got)
Safe == ~bad
Sym == Permutations(Threads)
=============================================================================
