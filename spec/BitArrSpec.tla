----------------------------- MODULE BitArrSpec -----------------------------
(* The packed bit array DynArray<bool>: SeqSpec's sequence of booleans (as 0/1) plus whole-array and   *)
(* counting operations.  Bytes are views: bit i of byte b is element 8*b + i, missing bits read zero.   *)
EXTENDS SeqSpec
Flip(o) == Upd(o, [i \in 1..Len(obj[o]) |-> 1 - obj[o][i]])
FlipBit(o, i) == i \in 0..(Len(obj[o]) - 1) /\ Upd(o, [obj[o] EXCEPT ![i + 1] = 1 - @])
Ones(s, i, n) == Cardinality({k \in (i + 1)..(i + n) : s[k] = 1})
BitAt(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0
ByteOf(s, b) == BitAt(s, 8*b) + 2*BitAt(s, 8*b+1) + 4*BitAt(s, 8*b+2) + 8*BitAt(s, 8*b+3) + 16*BitAt(s, 8*b+4) + 32*BitAt(s, 8*b+5) + 64*BitAt(s, 8*b+6) + 128*BitAt(s, 8*b+7)
BNext == Next \/ \E o \in Objs, i \in 0..MaxLen : Flip(o) \/ FlipBit(o, i)
\* two flips restore; the ones and zeroes always add up
CountsAgree == \A o \in Objs : Ones(obj[o], 0, Len(obj[o])) + Cardinality({k \in 1..Len(obj[o]) : obj[o][k] = 0}) = Len(obj[o])
BytesInRange == \A o \in Objs : ByteOf(obj[o], 0) \in 0..255
=============================================================================
