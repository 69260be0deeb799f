----------------------------- MODULE AtomModel ------------------------------
(* Why the primitives suffice: threads that add through a CAS loop, through xadd, and that guard a plain      *)
(* counter with a test-and-set bit never lose an update, for every interleaving.                              *)
EXTENDS AtomSpec
CONSTANTS Threads, Rounds
VARIABLES pc, seen, n, plain, held
av == <<mem, pc, seen, n, plain, held>>
One == <<1, 0>>
Num(w) == w[1] + Base * w[2]
Init == mem = <<Zero(2), Zero(2), Zero(2)>> /\ pc = [t \in Threads |-> "cas"] /\ seen = [t \in Threads |-> Zero(2)] /\ n = [t \in Threads |-> 0] /\ plain = 0 /\ held = [t \in Threads |-> 0]
Try(t) == /\ pc[t] = "cas" /\ n[t] < Rounds
          /\ \E ok \in BOOLEAN : CasR(1, AddW(seen[t], One), seen[t], ok, mem[1])
               /\ seen' = [seen EXCEPT ![t] = mem[1]]
               /\ pc' = [pc EXCEPT ![t] = IF ok THEN "xadd" ELSE "cas"]
          /\ UNCHANGED <<n, plain, held>>
Add(t) == pc[t] = "xadd" /\ XAdd(2, One, mem[2]) /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<seen, n, plain, held>>
Lock(t) == /\ pc[t] = "lock" /\ \E p \in BOOLEAN : Bts(3, 3, p) /\ pc' = [pc EXCEPT ![t] = IF p THEN "lock" ELSE "rd"]
           /\ UNCHANGED <<seen, n, plain, held>>
Rd(t) == pc[t] = "rd" /\ held' = [held EXCEPT ![t] = plain] /\ pc' = [pc EXCEPT ![t] = "wr"] /\ UNCHANGED <<mem, seen, n, plain>>
Wr(t) == pc[t] = "wr" /\ plain' = held[t] + 1 /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<mem, seen, n, held>>
Unlock(t) == pc[t] = "unlock" /\ \E p \in BOOLEAN : Btr(3, 3, p) /\ pc' = [pc EXCEPT ![t] = "cas"] /\ n' = [n EXCEPT ![t] = @ + 1] /\ UNCHANGED <<seen, plain, held>>
Next == \E t \in Threads : Try(t) \/ Add(t) \/ Lock(t) \/ Rd(t) \/ Wr(t) \/ Unlock(t)
Total == LET S[T \in SUBSET Threads] == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN n[x] + S[T \ {x}] IN S[Threads]
Past(S) == Cardinality({t \in Threads : pc[t] \in S})
NoLost == /\ Num(mem[1]) = Total + Past({"xadd", "lock", "rd", "wr", "unlock"})
          /\ Num(mem[2]) = Total + Past({"lock", "rd", "wr", "unlock"})
          /\ plain = Total + Past({"unlock"})
          /\ Past({"rd", "wr", "unlock"}) <= 1
=============================================================================
