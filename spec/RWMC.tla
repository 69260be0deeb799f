-------------------------------- MODULE RWMC --------------------------------
(* RWSpec by itself: exclusion, and every call that follows the rules can return. *)
EXTENDS RWSpec
VARIABLE c
Ops == {"Lock", "AttemptLock", "AttemptStrictLock", "RLock", "AttemptRLock", "Unlock", "Downgrade", "RUnlock", "Upgrade", "AttemptUpgrade"}
Init == c = RWStart
Next == \E t \in Threads :
          \/ \E op \in Ops : Legal(c, t, op) /\ c' = Call(c, t, op)
          \/ \E d \in Steps(c, t) : c' = d
          \/ Ph(c, t) = "d" /\ c' = [c EXCEPT !.p[t] = Idle]
Excl == Exclusive(c)
\* a downgrade leaves a reader behind, so nobody else writes; refusals keep what was held
WriterKnown == c.w # 0 => (c.h[c.w] \in {"W", "U"} \/ Ph(c, c.w) = "c")
\* somebody can always move: when all threads are inside calls, at least one internal step or return exists
Progress == (\A t \in Threads : c.p[t] # Idle) => \E t \in Threads : Ph(c, t) = "d" \/ Steps(c, t) # {}
=============================================================================
