------------------------------- MODULE RWAlgo -------------------------------
(* The reader-writer lock's own algorithm, one atomic access of the lock word (writer bit w, count n) per step.   *)
(* Every thread runs Budget operations, chosen freely among those its hold state permits.  held: "-", "R", "W"    *)
(* (from Lock) or "U" (a reader who upgraded: writer bit plus its own count).  Spins are modelled as guards, so   *)
(* TLC's deadlock check is the claim that legal use never hangs.                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Budget
VARIABLES w, n, pc, held, left, saw
vars == <<w, n, pc, held, left, saw>>
Init == w = FALSE /\ n = 0 /\ pc = [t \in Threads |-> "idle"] /\ held = [t \in Threads |-> "-"] /\ left = [t \in Threads |-> Budget] /\ saw = [t \in Threads |-> FALSE]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Fin(t, h) == Go(t, "idle") /\ held' = [held EXCEPT ![t] = h]
Begin(t, from, l) == pc[t] = "idle" /\ left[t] > 0 /\ held[t] \in from /\ Go(t, l) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<w, n, held, saw>>
Keep == UNCHANGED <<left, saw>>
Step(t) ==
  \/ Begin(t, {"-"}, "lock") \/ Begin(t, {"-"}, "alock") \/ Begin(t, {"-"}, "slock") \/ Begin(t, {"-"}, "rlock") \/ Begin(t, {"-"}, "arlock")
  \/ Begin(t, {"R"}, "upg") \/ Begin(t, {"R"}, "aupg")
  \/ pc[t] = "lock" /\ ~w /\ w' = TRUE /\ Go(t, "drain0") /\ Keep /\ UNCHANGED <<n, held>>
  \/ pc[t] = "alock" /\ (IF w THEN Fin(t, "-") /\ UNCHANGED <<w, n>> ELSE w' = TRUE /\ Go(t, "drain0") /\ UNCHANGED <<n, held>>) /\ Keep
  \/ pc[t] = "drain0" /\ n = 0 /\ Fin(t, "W") /\ Keep /\ UNCHANGED <<w, n>>
  \/ pc[t] = "slock" /\ (IF ~w /\ n = 0 THEN w' = TRUE /\ Fin(t, "W") ELSE w' = w /\ Fin(t, "-")) /\ n' = n /\ Keep
  \/ pc[t] = "rlock" /\ n' = n + 1 /\ (IF w THEN Go(t, "rback") /\ held' = held ELSE Fin(t, "R")) /\ w' = w /\ Keep
  \/ pc[t] = "rback" /\ n' = n - 1 /\ Go(t, "rspin") /\ Keep /\ UNCHANGED <<w, held>>
  \/ pc[t] = "rspin" /\ ~w /\ Go(t, "rlock") /\ Keep /\ UNCHANGED <<w, n, held>>
  \/ pc[t] = "arlock" /\ n' = n + 1 /\ (IF w THEN Go(t, "arback") /\ held' = held ELSE Fin(t, "R")) /\ w' = w /\ Keep
  \/ pc[t] = "arback" /\ n' = n - 1 /\ Fin(t, "-") /\ w' = w /\ Keep
  \* Upgrade: a reader that loses the race for the writer bit steps aside and comes back
  \/ pc[t] = "upg" /\ (IF w THEN Go(t, "uback") /\ w' = w ELSE w' = TRUE /\ Go(t, "drain1")) /\ held' = [held EXCEPT ![t] = "."] /\ n' = n /\ Keep
  \/ pc[t] = "uback" /\ n' = n - 1 /\ Go(t, "uspin") /\ Keep /\ UNCHANGED <<w, held>>
  \/ pc[t] = "uspin" /\ ~w /\ Go(t, "uadd") /\ Keep /\ UNCHANGED <<w, n, held>>
  \/ pc[t] = "uadd" /\ n' = n + 1 /\ Go(t, "upg") /\ Keep /\ UNCHANGED <<w, held>>
  \/ pc[t] = "aupg" /\ (IF w THEN Fin(t, "R") /\ w' = w ELSE w' = TRUE /\ Go(t, "drain1") /\ held' = held) /\ n' = n /\ Keep
  \/ pc[t] = "drain1" /\ n = 1 /\ Fin(t, "U") /\ Keep /\ UNCHANGED <<w, n>>
  \* giving up what is held (always allowed, so that everything ends)
  \/ pc[t] = "idle" /\ held[t] = "W" /\ w' = FALSE /\ Fin(t, "-") /\ n' = n /\ Keep
  \/ pc[t] = "idle" /\ held[t] = "U" /\ w' = FALSE /\ Fin(t, "R") /\ n' = n /\ Keep
  \/ pc[t] = "idle" /\ held[t] = "R" /\ n' = n - 1 /\ Fin(t, "-") /\ w' = w /\ Keep
Done == \A t \in Threads : pc[t] = "idle" /\ held[t] = "-" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Writers == {t \in Threads : held[t] \in {"W", "U"}}
Readers == {t \in Threads : held[t] = "R"}
\* a reader inside AttemptUpgrade still holds its read lock: nobody else may write meanwhile
Exclusive == Cardinality(Writers) <= 1 /\ (Writers # {} => Readers = {})
Quiet == Done => ~w /\ n = 0                                       \* nothing is lost in the word
Counted == n >= Cardinality(Readers) + Cardinality({t \in Threads : held[t] = "U"}) /\ n <= Cardinality(Threads)
=============================================================================
