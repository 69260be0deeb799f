------------------------------- MODULE TextMC -------------------------------
(* The specification by itself: encodings invert each other on every string over a boundary alphabet. *)
EXTENDS TextSpec
CONSTANTS Points, Bytes, Max
VARIABLE cps
Init == str = <<>> /\ cps = <<>>
Next == \/ cps = <<>> /\ Len(str) < Max /\ (\E b \in Bytes : str' = Append(str, b)) /\ UNCHANGED cps
        \/ str = <<>> /\ Len(cps) < Max - 1 /\ (\E c \in Points : cps' = Append(cps, c)) /\ UNCHANGED str
RoundTrip == FromU8(ToU8(cps)) = cps /\ WellFormed(ToU8(cps))
PrefixOnly == LET d == ToU8(FromU8(str)) IN d = SubSeq(str, 1, Len(d))
Base == UnB64(B64(str)) = str /\ Len(B64(str)) = B64Len(Len(str))
Pieces == LET p == Split(str, 65) IN Len(p) = Occurs(str, 65) + 1 /\ Flat(p) = Stripped(str, 65) /\ Tokens(str, {65}) = SelectSeq(p, LAMBDA x : x # <<>>)
Trim2 == Trimmed(Trimmed(str)) = Trimmed(str)
=============================================================================
