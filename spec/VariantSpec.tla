---------------------------- MODULE VariantSpec -----------------------------
(* Variants as tagged values.  slot[i] = <<tag, value>>, tag -1 = empty.  Every slot with a tag in TrackedTags *)
(* owns exactly one live object of a type with constructors and destructors.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tags, TrackedTags, Vals
VARIABLE slot
Empty == <<-1, 0>>
Store(i, t, v) == t \in Tags /\ slot' = [slot EXCEPT ![i] = <<t, v>>]
CopyTo(i, j) == slot' = [slot EXCEPT ![i] = slot[j]]
MoveTo(i, j, left) == i # j /\ slot' = [slot EXCEPT ![i] = slot[j], ![j] = <<slot[j][1], left>>]   \* the source keeps its type
TypeSet(i, t) == t \in Tags /\ slot' = [slot EXCEPT ![i] = <<t, 0>>]
Reset(i) == slot' = [slot EXCEPT ![i] = Empty]
Live == Cardinality({i \in DOMAIN slot : slot[i][1] \in TrackedTags})
VInit == slot = [i \in 1..3 |-> Empty]
VNext == \E i, j \in DOMAIN slot : \E t \in Tags : \E v \in Vals : Store(i, t, v) \/ CopyTo(i, j) \/ MoveTo(i, j, v) \/ TypeSet(i, t) \/ Reset(i)
TypeOK == \A i \in DOMAIN slot : slot[i][1] \in Tags \cup {-1}
=============================================================================
