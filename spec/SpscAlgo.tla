------------------------------ MODULE SpscAlgo ------------------------------
(* LocklessQueue: nodes from first (producer's) through div (shared, consumer's dummy) to last (shared).  One      *)
(* producer pushing 1..N, one consumer popping up to Pops times; every shared access is one step.  Freed nodes are *)
(* reused at once, lowest number first, and scribbled over, so touching a freed node shows.                        *)
EXTENDS Integers, Sequences
CONSTANTS N, Pops, Nodes
VARIABLES nx, item, alive, first, div, last, len, ppc, pl, pushed, cpc, cd, cv, tries, got, bad
vars == <<nx, item, alive, first, div, last, len, ppc, pl, pushed, cpc, cd, cv, tries, got, bad>>
Init == /\ nx = [n \in Nodes |-> 0] /\ item = [n \in Nodes |-> 0] /\ alive = {1} /\ first = 1 /\ div = 1 /\ last = 1 /\ len = 0 /\ ppc = "idle" /\ pl = 0 /\ pushed = 0
        /\ cpc = "idle" /\ cd = 0 /\ cv = 0 /\ tries = 0 /\ got = <<>> /\ bad = FALSE
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
Use(n) == bad' = (bad \/ n \notin alive)
P1 == <<div, cpc, cd, cv, tries, got>>
Producer ==
  \/ ppc = "idle" /\ pushed < N /\ pl' = last /\ ppc' = "link" /\ UNCHANGED <<nx, item, alive, first, last, len, pushed, bad>> /\ UNCHANGED P1
  \/ ppc = "link" /\ Nodes \ alive # {} /\ (LET m == Low(Nodes \ alive) IN alive' = alive \cup {m} /\ nx' = [nx EXCEPT ![pl] = m, ![m] = 0] /\ item' = [item EXCEPT ![m] = -1]) /\ Use(pl)
     /\ ppc' = "fill" /\ UNCHANGED <<first, last, len, pl, pushed>> /\ UNCHANGED P1
  \/ ppc = "fill" /\ item' = [item EXCEPT ![nx[pl]] = pushed + 1] /\ ppc' = "publish" /\ UNCHANGED <<nx, alive, first, last, len, pl, pushed, bad>> /\ UNCHANGED P1
  \/ ppc = "publish" /\ last' = nx[pl] /\ pushed' = pushed + 1 /\ ppc' = "count" /\ UNCHANGED <<nx, item, alive, first, len, pl, bad>> /\ UNCHANGED P1
  \/ ppc = "count" /\ len' = len + 1 /\ ppc' = "reap" /\ UNCHANGED <<nx, item, alive, first, last, pl, pushed, bad>> /\ UNCHANGED P1
  \/ ppc = "reap" /\ (IF first # div THEN ppc' = "free" ELSE ppc' = "idle") /\ UNCHANGED <<nx, item, alive, first, last, len, pl, pushed, bad>> /\ UNCHANGED P1
  \/ ppc = "free" /\ Use(first) /\ first' = nx[first] /\ alive' = alive \ {first} /\ item' = [item EXCEPT ![first] = -2] /\ nx' = [nx EXCEPT ![first] = -2]
     /\ ppc' = "reap" /\ UNCHANGED <<last, len, pl, pushed>> /\ UNCHANGED P1
C1 == <<alive, nx, item, first, last, ppc, pl, pushed>>
Consumer ==
  \/ cpc = "idle" /\ tries < Pops /\ cd' = div /\ tries' = tries + 1 /\ cpc' = "test" /\ UNCHANGED <<div, len, cv, got, bad>> /\ UNCHANGED C1
  \/ cpc = "test" /\ cpc' = (IF cd # last THEN "take" ELSE "idle") /\ UNCHANGED <<div, len, cd, cv, tries, got, bad>> /\ UNCHANGED C1
  \/ cpc = "take" /\ Use(cd) /\ cv' = item[nx[cd]] /\ cpc' = "move" /\ UNCHANGED <<div, len, cd, tries, got>> /\ UNCHANGED C1
  \/ cpc = "move" /\ Use(cd) /\ div' = nx[cd] /\ cpc' = "dec" /\ UNCHANGED <<len, cd, cv, tries, got>> /\ UNCHANGED C1
  \/ cpc = "dec" /\ len' = len - 1 /\ got' = Append(got, cv) /\ cpc' = "idle" /\ UNCHANGED <<div, cd, cv, tries, bad>> /\ UNCHANGED C1
Done == ppc = "idle" /\ pushed = N /\ cpc = "idle" /\ tries = Pops
Next == Producer \/ Consumer \/ (Done /\ UNCHANGED vars)
Order == got = [i \in 1..Len(got) |-> i]
NoneLost == Done => (pushed - Len(got) = len /\ (Len(got) < pushed => div # last))
Safe == ~bad
=============================================================================
