------------------------------ MODULE AtomSpec ------------------------------
(* Words of memory as little-endian sequences of digits (bytes: Base = 256).  Every primitive is one atomic  *)
(* action on one word of mem; the neighbouring words never change.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Base, BitsPer     \* Base = 2^BitsPer
VARIABLE mem               \* sequence of words
Zero(w) == [i \in 1..w |-> 0]
AddW(a, b) == LET C[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE (a[i] + b[i] + C[i-1]) \div Base
              IN [i \in 1..Len(a) |-> (a[i] + b[i] + C[i-1]) % Base]
Pow2(n) == 2^n
BitOf(a, k) == (a[(k \div BitsPer) + 1] \div Pow2(k % BitsPer)) % 2
WithBit(a, k, v) == [a EXCEPT ![(k \div BitsPer) + 1] = @ + (v - BitOf(a, k)) * Pow2(k % BitsPer)]
Put(i, w) == mem' = [mem EXCEPT ![i] = w]
XAdd(i, v, ret) == ret = mem[i] /\ Put(i, AddW(mem[i], v))
XChg(i, v, ret) == ret = mem[i] /\ Put(i, v)
Cas(i, new, old, ok) == ok = (mem[i] = old) /\ Put(i, IF mem[i] = old THEN new ELSE mem[i])
CasR(i, new, old, ok, ret) == ret = mem[i] /\ Cas(i, new, old, ok)
Bts(i, k, prev) == prev = (BitOf(mem[i], k) = 1) /\ Put(i, WithBit(mem[i], k, 1))
Btr(i, k, prev) == prev = (BitOf(mem[i], k) = 1) /\ Put(i, WithBit(mem[i], k, 0))
=============================================================================
