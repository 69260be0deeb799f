----------------------------- MODULE TextTrace ------------------------------
EXTENDS TextSpec, TraceIO
VARIABLES run, l
vars == <<str, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ str = <<>>
A1 == e.a[1]
A2 == e.a[2]
A3 == e.a[3]
R1 == e.r[1]
R2 == e.r[2]
Int3(k) == e.a[k] * 65536 + e.a[k + 1]
\* the text a converted string object holds: everything before the terminator
UpTo0(q) == IF \E i \in 1..Len(q) : q[i] = 0 THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i-1) : q[j] # 0) - 1) ELSE q
Groups(a, d) == LET F[i \in 0..Len(a)] == IF i = 0 THEN <<>>
                      ELSE IF i = 1 THEN << <<a[1]>> >>
                      ELSE IF a[i] # <<>> /\ a[i][1] = d THEN Append(F[i-1], <<a[i]>>)
                      ELSE [F[i-1] EXCEPT ![Len(F[i-1])] = Append(@, a[i])] IN F[Len(a)]
Fun == \/ Is("To32") /\ R2 = Fit32(FromU8(Given(A1, A2)), A3) /\ R1 = Len(R2)
       \/ Is("Size32") /\ R1 >= Len(FromU8(Given(A1, A2))) /\ (WellFormed(A1) /\ A2 < 0 => R1 = Len(FromU8(A1)) + 1)
       \/ Is("To8") /\ R2 = Fit8(Given(A1, A2), A3) /\ R1 = Len(R2)
       \/ Is("Size8") /\ R1 >= Len(ToU8(Given(A1, A2))) /\ (A2 < 0 => R1 = Len(ToU8(A1)) + 1)
       \/ Is("Obj32") /\ R1 = UpTo0(FromU8(Given(A1, A2)))
       \/ Is("Obj8") /\ R1 = UpTo0(ToU8(Given(A1, A2)))
       \/ Is("Uni") /\ R1 = A1 \o (IF A2 > 1114111 THEN <<>> ELSE Enc(A2))
       \/ Is("B64") /\ R1 = B64Len(Len(A1)) /\ R2 = R1 /\ e.r[3] = B64(A1)
       \/ Is("UnB64") /\ (IF (Len(A1) % 4) = 1 THEN R1 = 0 /\ R2 = 0 ELSE e.r[3] = UnB64(A1) /\ R2 = Len(e.r[3]) /\ R1 = R2)
       \/ Is("Itoa") /\ R1 = 0 /\ R2 = Itoa(Int3(2), e.a[4])
       \/ Is("BadItoa") /\ R1 = TRUE /\ R2 = <<107>>
       \/ Is("CTrim") /\ R1 = (CASE A1 = 0 -> LTrim(A2) [] A1 = 1 -> RTrim(A2) [] OTHER -> Trimmed(A2))
       \/ Is("CRep") /\ R1 = Replaced(A1, A2, A3) /\ R2 = TRUE
       \/ Is("CCount") /\ R1 = Occurs(IF A3 < 0 \/ A3 > Len(A1) THEN A1 ELSE SubSeq(A1, 1, A3), A2)
       \/ Is("Search") /\ R1 = Find(A1, A2)
       \/ Is("Flip") /\ R1 = Rev(A1)
       \/ Is("Argv") /\ R1 = Len(A2) /\ R2 = TRUE /\ e.r[3] = Len(A2) /\ e.r[4] = A2
       \/ Is("Cmd") /\ R1 = Groups(A1, A2)
       \/ Is("Format") /\ R1 = Format(A1, A2)
       \/ Is("ExNull") /\ R1 = A1
Obj == \/ Is("New") /\ str' = <<>>
       \/ Is("Set") /\ str' = A1
       \/ Is("Add") /\ str' = str \o A1
       \/ Is("Plus") /\ R1 = str \o A1 /\ UNCHANGED str
       \/ Is("Pre") /\ R1 = A1 \o str /\ UNCHANGED str
       \/ Is("Trim") /\ R1 = Trimmed(str) /\ UNCHANGED str
       \/ Is("Rep") /\ str' = Replaced(str, A1, A2)
       \/ Is("Strip") /\ R1 = Stripped(str, A1) /\ UNCHANGED str
       \/ Is("Chunk") /\ R1 = Chunk(str, A2, A1) /\ UNCHANGED str
       \/ Is("Explode") /\ R1 = Tokens(str, {A1}) /\ UNCHANGED str
       \/ Is("Tokens") /\ R2 = Tokens(str, {A1, A2}) /\ R1 = Len(R2) /\ UNCHANGED str
       \/ Is("StrF") /\ R1 = str \o <<124>> \o Itoa(Int3(2), 10) /\ UNCHANGED str
       \/ Is("Char") /\ str' = [str EXCEPT ![A1 + 1] = A2]
       \/ Is("Cut") /\ str' = SubSeq(str, 1, A1)
TNext == \/ More(run, l) /\ ((Fun /\ UNCHANGED str) \/ (Obj /\ e.s = str')) /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
