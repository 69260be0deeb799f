------------------------------ MODULE ArbSpec ------------------------------
(* The array whose element width is chosen (and changed) at run time: a sequence of byte records, all  *)
(* `wid` bytes wide.  Changing the width keeps the leading bytes of every record and zero-fills the     *)
(* rest.  Also the two small companions of the array family: the scoped variable-length array and the   *)
(* row-major index of a multi-dimensional view.                                                        *)
EXTENDS Integers, Sequences
CONSTANTS AObjs, ABytes, AMaxLen, AMaxWid
VARIABLES rec, wid
Fit(r, w) == [i \in 1..w |-> IF i <= Len(r) THEN r[i] ELSE 0]
Put(o, s) == rec' = [rec EXCEPT ![o] = s] /\ UNCHANGED wid
AAdd(o, r)      == Len(r) = wid[o] /\ Put(o, Append(rec[o], r))
ARemove(o, i)   == i \in 0..(Len(rec[o]) - 1) /\ Put(o, SubSeq(rec[o], 1, i) \o SubSeq(rec[o], i + 2, Len(rec[o])))
ARemoveLast(o)  == Len(rec[o]) > 0 /\ Put(o, SubSeq(rec[o], 1, Len(rec[o]) - 1))
AWrite(o, i, r) == i \in 0..(Len(rec[o]) - 1) /\ Len(r) = wid[o] /\ Put(o, [rec[o] EXCEPT ![i + 1] = r])
ALength(o, n, r) == Len(r) = wid[o] /\ Put(o, [i \in 1..n |-> IF i <= Len(rec[o]) THEN rec[o][i] ELSE r])
AClear(o)       == Put(o, <<>>)
AWidth(o, w)    == w > 0 /\ rec' = [rec EXCEPT ![o] = [i \in DOMAIN rec[o] |-> Fit(rec[o][i], w)]] /\ wid' = [wid EXCEPT ![o] = w]
ASet(o, w, s)   == w > 0 /\ rec' = [rec EXCEPT ![o] = s] /\ wid' = [wid EXCEPT ![o] = w]
ACopy(o, p)     == rec' = [rec EXCEPT ![o] = rec[p]] /\ wid' = [wid EXCEPT ![o] = wid[p]]
AMove(o, p, rest) == o # p /\ rec' = [rec EXCEPT ![o] = rec[p], ![p] = rest] /\ wid' = [wid EXCEPT ![o] = wid[p]]
\* row-major index: dimensions d (outermost first), coordinates c
RECURSIVE RowMajor(_, _, _)
RowMajor(d, c, n) == IF n = 1 THEN c[1] ELSE c[n] + d[n] * RowMajor(d, c, n - 1)

AInit == rec = [o \in AObjs |-> <<>>] /\ wid = [o \in AObjs |-> 1]
Recs(w) == [1..w -> ABytes]
ANext == \E o, p \in AObjs :
  \/ \E r \in Recs(wid[o]) : AAdd(o, r) \/ (\E i \in 0..AMaxLen : AWrite(o, i, r) \/ ALength(o, i, r))
  \/ (\E i \in 0..AMaxLen : ARemove(o, i)) \/ ARemoveLast(o) \/ AClear(o) \/ (\E w \in 1..AMaxWid : AWidth(o, w)) \/ ACopy(o, p) \/ AMove(o, p, <<>>)
ABound == \A o \in AObjs : Len(rec[o]) <= AMaxLen
WidthOK == \A o \in AObjs : wid[o] >= 1 /\ \A i \in DOMAIN rec[o] : Len(rec[o][i]) = wid[o]
\* a row-major index is a bijection between coordinates and 0..(volume - 1)
RowMajorOK == \A d \in [1..3 -> 1..3] : LET C == {c \in [1..3 -> 0..2] : \A i \in 1..3 : c[i] < d[i]} IN
   {RowMajor(d, c, 3) : c \in C} = 0..(d[1] * d[2] * d[3] - 1)
=============================================================================
