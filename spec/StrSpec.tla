------------------------------ MODULE StrSpec -------------------------------
(* Tries: a fixed list of distinct keys; a lookup answers the index of the key equal to the word (equal  *)
(* up to ASCII case when case is ignored), or -1.  The trie itself is the set of prefixes of its keys;   *)
(* walking it byte by byte must agree with the list (checked on the bounded model).                      *)
(* String tables: sequences of strings.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Alphabet, MaxLen, MaxKeys, Fold
VARIABLES keys, ic, tab
stv == <<keys, ic, tab>>
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Norm(w) == IF ic THEN [i \in 1..Len(w) |-> Low(w[i])] ELSE w
Lookup(w) == LET M == {i \in 1..Len(keys) : Norm(keys[i]) = Norm(w)} IN IF M = {} THEN -1 ELSE (CHOOSE i \in M : TRUE) - 1
\* the trie: nodes are prefixes; each step follows the one child with the next byte
Prefixes == UNION {{SubSeq(Norm(keys[i]), 1, n) : n \in 0..Len(keys[i])} : i \in 1..Len(keys)}
Walk(w) == LET W[n \in 0..Len(w)] == IF n = 0 THEN <<>> ELSE IF W[n-1] = <<-1>> \/ Append(W[n-1], Norm(w)[n]) \notin Prefixes THEN <<-1>> ELSE Append(W[n-1], Norm(w)[n])
               node == W[Len(w)]
               M == {i \in 1..Len(keys) : Norm(keys[i]) = node}
           IN IF M = {} THEN -1 ELSE (CHOOSE i \in M : TRUE) - 1
Words == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Set1(o, s) == tab' = [tab EXCEPT ![o] = s] /\ UNCHANGED <<keys, ic>>
Add(o, s) == Set1(o, Append(tab[o], s))
Cat(o, p, q) == Set1(o, tab[p] \o tab[q])
Copy(o, p) == Set1(o, tab[p])
Move(o, p) == o # p /\ tab' = [tab EXCEPT ![o] = tab[p], ![p] = <<>>] /\ UNCHANGED <<keys, ic>>
Init == keys = <<>> /\ ic = Fold /\ tab = <<<<>>, <<>>>>
AddKey(w) == Lookup(w) = -1 /\ keys' = Append(keys, w) /\ UNCHANGED <<ic, tab>>
Next == \/ Len(keys) < MaxKeys /\ \E w \in Words : AddKey(w)
WalkIsLookup == \A w \in Words : Walk(w) = Lookup(w)
Resolves == \A i \in 1..Len(keys) : Lookup(keys[i]) = i - 1
=============================================================================
