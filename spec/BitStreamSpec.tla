--------------------------- MODULE BitStreamSpec ----------------------------
(* A bit stream over a byte stream: `wr` is every bit written so far, `rd` how many have been read      *)
(* back.  Flush completes the trailing partial byte with zero bits; flushing twice is flushing once.    *)
EXTENDS Integers, Sequences
CONSTANTS MaxBits
VARIABLES wr, rd
PadLen(n) == (8 - (n % 8)) % 8
Padded == wr \o [i \in 1..PadLen(Len(wr)) |-> 0]
\* Bits that have certainly reached the underlying stream: all whole bytes
OutBits == SubSeq(wr, 1, Len(wr) - (Len(wr) % 8))
Put(b)  == wr' = wr \o b /\ UNCHANGED rd
Flush   == wr' = Padded /\ UNCHANGED rd
Handover == UNCHANGED <<wr, rd>>            \* the stream object is moved into another one
Get(n, b) == /\ rd + n <= Len(OutBits) /\ b = SubSeq(wr, rd + 1, rd + n)
             /\ rd' = rd + n /\ UNCHANGED wr
BInit == wr = <<>> /\ rd = 0
BNext == (\E n \in 1..2, k \in 0..3 : Put([i \in 1..n |-> (k \div i) % 2])) \/ Flush \/ Handover \/ (\E n \in 1..3 : rd + n <= Len(OutBits) /\ Get(n, SubSeq(wr, rd + 1, rd + n)))
BBound == Len(wr) <= MaxBits
WholeBytes == Len(OutBits) % 8 = 0
ReadsWritten == rd <= Len(OutBits)
PrefixOut == OutBits = SubSeq(wr, 1, Len(OutBits)) /\ Len(wr) - Len(OutBits) < 8
FlushOnce == [][Flush => (Len(wr') % 8 = 0 /\ (Len(wr) % 8 = 0 => wr' = wr))]_<<wr, rd>>
=============================================================================
