------------------------------ MODULE RatTrace ------------------------------
(* Recorded arithmetic.  cfg.big = FALSE: state r is <<n, d>>, everything decided on exact integers.           *)
(* cfg.big = TRUE: numbers beyond 32 bits arrive as <<sign, limbs base 2^15, least first>>; the exact          *)
(* identities are decided modulo several primes (values are below 2^127, the product of the primes is larger), *)
(* lowest terms through a Bezout witness.                                                                      *)
EXTENDS RatSpec, TraceIO
VARIABLES r, run, l
vars == <<r, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
Primes == {32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653, 32647}
ResL(s, p) == LET F[i \in 1..Len(s)+1] == IF i > Len(s) THEN 0 ELSE (s[i] + ((32768 % p) * F[i+1])) % p IN F[1]
Res(x, p) == LET v == ResL(x[2], p) IN IF x[1] < 0 THEN (p - v) % p ELSE v
M(p, x, y) == (x * y) % p
TInit == run \in 1..Len(Runs) /\ l = 1 /\ r = Runs[run].cfg.init
One == IF C.big THEN <<1, <<1>>>> ELSE 1
Arg == IF e.a[1] = "int" THEN <<e.a[2], One>> ELSE e.a[2]         \* integer operand or rational operand
\* x op y = z
ExactSmall(op, x, y, z) == z = (CASE op = "+" -> Plus(x, y) [] op = "-" -> Minus(x, y) [] op = "*" -> Times(x, y) [] op = "/" -> Over(x, y))
ExactBig(op, x, y, z, w) ==
  /\ z[2][1] = 1
  /\ \A p \in Primes :
       LET xn == Res(x[1], p) xd == Res(x[2], p) yn == Res(y[1], p) yd == Res(y[2], p) zn == Res(z[1], p) zd == Res(z[2], p)
           num == CASE op = "+" -> (M(p, xn, yd) + M(p, yn, xd)) % p [] op = "-" -> (M(p, xn, yd) + p - M(p, yn, xd)) % p [] op = "*" -> M(p, xn, yn) [] op = "/" -> M(p, xn, yd)
           den == IF op = "/" THEN M(p, xd, yn) ELSE M(p, xd, yd) IN
       /\ M(p, zn, den) = M(p, num, zd)
       /\ (M(p, Res(w[1], p), zn) + M(p, Res(w[2], p), zd)) % p = 1
Exact(op, x, y, z) == IF C.big THEN ExactBig(op, x, y, z, e.r) ELSE ExactSmall(op, x, y, z)
Cmp(op, x, y) == CASE op = "<" -> Less(x, y) [] op = ">" -> Less(y, x) [] op = "<=" -> ~Less(y, x) [] op = ">=" -> ~Less(x, y) [] op = "==" -> x = y [] op = "!=" -> x # y
Obs == e.s
Step == \/ e.op \in {"+", "-", "*", "/"} /\ Exact(e.op, r, Arg, Obs)
        \/ Is("rev-") /\ Exact("-", Arg, r, Obs)        \* integer on the left
        \/ Is("rev/") /\ Exact("/", Arg, r, Obs)
        \/ Is("++") /\ Exact("+", r, <<One, One>>, Obs)
        \/ Is("--") /\ Exact("-", r, <<One, One>>, Obs)
        \/ Is("set") /\ Exact("/", <<e.a[1], One>>, <<e.a[2], One>>, Obs)
        \/ e.op \in {"<", ">", "<=", ">=", "==", "!="} /\ ~C.big /\ e.r[1] = Cmp(e.op, r, Arg) /\ Obs = r
        \/ Is("rcmp") /\ ~C.big /\ e.r[1] = Cmp(e.a[3], Arg, r) /\ Obs = r       \* integer on the left
        \/ Is("Abs") /\ ~C.big /\ e.r[1] = <<Abs(r[1]), r[2]>> /\ Obs = r
        \/ Is("Trunc") /\ ~C.big /\ e.r[1] = Quo(r[1], r[2]) /\ Obs = r
        \/ Is("Not") /\ ~C.big /\ e.r[1] = (r[1] = 0) /\ Obs = r
TNext == \/ More(run, l) /\ Step /\ r' = Obs /\ (~C.big => IsRat(r')) /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
