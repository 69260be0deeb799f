--------------------------- MODULE BitFieldTrace ----------------------------
EXTENDS BitFieldSpec, TraceIO
VARIABLES run, l
vars == <<bits, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
S(i) == Range(e.a[i])
TInit == run \in 1..Len(Runs) /\ l = 1 /\ bits = {}
Step == \/ Is("SetTo") /\ SetTo(S(1))
        \/ Is("SetMask") /\ SetMask(S(1), S(2))
        \/ Is("AddBits") /\ AddBits(S(1))
        \/ Is("DropBits") /\ DropBits(S(1))
        \/ Is("SetBit") /\ SetBit(e.a[1], e.a[2])
        \/ Is("FlipPos") /\ FlipPos(e.a[1])
        \/ Is("SetGroup") /\ SetGroup(S(1), S(2))
        \/ Is("GetBit") /\ e.r = <<e.a[1] \in bits>> /\ UNCHANGED bits
        \/ Is("GetGroup") /\ Range(e.r[1]) = bits \cap S(1) /\ e.r[2] = (bits \cap S(1) = {}) /\ UNCHANGED bits
TNext == \/ More(run, l) /\ Step /\ Range(e.s) = bits' /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
