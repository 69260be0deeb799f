---------------------------- MODULE BitFieldSpec ----------------------------
(* A BitField<T> of `Width` bits, as the set of set bit positions.  A mask is a set of positions.       *)
EXTENDS Integers, FiniteSets
CONSTANT Width
VARIABLE bits
Pos == 0..(Width - 1)
SetTo(m)         == bits' = m
SetMask(v, m)    == v \subseteq m /\ bits' = (bits \ m) \cup v
AddBits(m)       == bits' = bits \cup m
DropBits(m)      == bits' = bits \ m
SetBit(b, v)     == bits' = IF v THEN bits \cup {b} ELSE bits \ {b}
FlipPos(b)       == bits' = IF b \in bits THEN bits \ {b} ELSE bits \cup {b}
SetGroup(v, m)   == bits' = (bits \ m) \cup (v \cap m)
FInit == bits = {}
FNext == \E m, v \in SUBSET Pos, b \in Pos : SetTo(m) \/ SetMask(v, m) \/ AddBits(m) \/ DropBits(m) \/ SetBit(b, TRUE) \/ SetBit(b, FALSE) \/ FlipPos(b) \/ SetGroup(v, m)
FType == bits \subseteq Pos
\* bits outside a mask are never disturbed by a masked operation
Untouched == [][\A m \in SUBSET Pos, v \in SUBSET Pos : SetGroup(v, m) => (bits' \ m) = (bits \ m)]_bits
=============================================================================
