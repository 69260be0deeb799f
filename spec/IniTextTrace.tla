---------------------------- MODULE IniTextTrace ----------------------------
(* Arbitrary text is loaded as IniText says, and edits of it are found again when the result is reloaded. *)
EXTENDS IniText, TraceIO
NoHeader == <<>>
VARIABLES d, run, l
vars == <<d, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ d = <<>>
Obs(x) == [i \in 1..Len(x) |-> [n |-> Name(x[i][1]), e |-> [j \in 1..Len(x[i][2]) |-> [k |-> Name(x[i][2][j][1]), v |-> x[i][2][j][2], c |-> 0]], cm |-> {}]]
Val(x) == IF Len(x) = 1 THEN x[1] ELSE Null
EditV(n, k, v, ki, si) == IF Len(v) = 0 THEN Edit(d, n, k, Null, ki, si) ELSE   \* v is <<>> or <<value>>
  IF ~CanEdit(d, n[1], si) THEN <<-1, d>> ELSE IF ki = -1 THEN <<0, InsEnt(d, n[1], si, k, v[1])>>
  ELSE IF ~HasEnt(d, n[1], si, k[1], ki) THEN <<-1, d>> ELSE <<0, SetEnt(d, n[1], si, k[1], ki, v[1])>>
Step == \/ Is("Parse") /\ d' = Parse(e.a[1])
        \/ Is("AddSection") /\ d' = AddSec(d, Name(e.a[1]), {})
        \/ Is("RemoveSection") /\ LET n == Name(e.a[1]) can == CanEdit(d, n[1], e.a[2]) IN e.r = <<can>> /\ d' = (IF can THEN RemSec(d, n[1], e.a[2]) ELSE d)
        \/ Is("EditEntry") /\ LET x == EditV(Name(e.a[1]), Name(e.a[2]), e.a[3], e.a[4], e.a[5]) IN e.r = <<x[1]>> /\ d' = x[2]
        \/ Is("Save") /\ UNCHANGED d /\ View(Obs(e.r[1])) = View(d) /\ View(Parse(e.r[2])) = View(d)    \* by our own reading of the text as well
Observed == Obs(e.s) = d'
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
