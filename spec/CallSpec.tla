------------------------------ MODULE CallSpec ------------------------------
(* Delegates, stored calls and deferred calls.  st[i]: what slot i will call: <<target, bound arguments>> or   *)
(* <<>>; df[i]: likewise for a call deferred to the end of a scope.  out: the invocations one step makes, in   *)
(* order, each <<target, arguments>>.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES st, df, out
Bind(i, t, args) == st' = [st EXCEPT ![i] = <<t, args>>] /\ out' = <<>> /\ UNCHANGED df
CopyB(i, j) == st' = [st EXCEPT ![i] = st[j]] /\ out' = <<>> /\ UNCHANGED df
Unbind(i) == st' = [st EXCEPT ![i] = <<>>] /\ out' = <<>> /\ UNCHANGED df
Invoke(i, args) == st[i] # <<>> /\ out' = <<<<st[i][1], st[i][2] \o args>>>> /\ UNCHANGED <<st, df>>
Defer(i, t, args) == df[i] = <<>> /\ df' = [df EXCEPT ![i] = <<t, args>>] /\ out' = <<>> /\ UNCHANGED st
EndScope(i) == df[i] # <<>> /\ out' = <<df[i]>> /\ df' = [df EXCEPT ![i] = <<>>] /\ UNCHANGED st
CInit == st = [i \in 1..2 |-> <<>>] /\ df = [i \in 1..2 |-> <<>>] /\ out = <<>>
CNext == \E i, j \in 1..2 : \E t \in 1..2 : \E a \in {<<>>, <<7>>} : Bind(i, t, a) \/ CopyB(i, j) \/ Unbind(i) \/ Invoke(i, a) \/ Defer(i, t, a) \/ EndScope(i)
AtMostOne == Len(out) <= 1
Ret(t, args) == LET S[k \in 0..Len(args)] == IF k = 0 THEN t * 1000 ELSE S[k-1] + k * args[k] IN S[Len(args)]   \* what the test targets return
=============================================================================
