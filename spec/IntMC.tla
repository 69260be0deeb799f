-------------------------------- MODULE IntMC -------------------------------
(* The byte-sequence arithmetic agrees with ordinary arithmetic wherever the latter fits. *)
EXTENDS IntSpec
CONSTANT Step
VARIABLES x, y
B(v) == <<v % 256, v \div 256>>
V(b) == LET F[i \in 0..Len(b)] == IF i = 0 THEN 0 ELSE F[i-1] * 256 + b[Len(b) + 1 - i] IN F[Len(b)]
S(v) == IF v < 0 THEN <<1, B(-v)>> ELSE <<0, B(v)>>
Init == x = 0 /\ y = 0
Next == (x < 40000 /\ x' = x + Step /\ y' = 0) \/ (y < 40000 /\ y' = y + 7 * Step /\ x' = x)
Arith == /\ V(Add(B(x), B(y), 3)) = x + y /\ V(Mul(B(x), B(y), 3)) = (x * y) % 16777216
         /\ (x >= y => V(Sub(B(x), B(y), 2)) = x - y) /\ Lt(B(x), B(y)) = (x < y) /\ Same(B(x), B(y)) = (x = y)
Div == y > 0 => /\ IsFloorDiv(S(x), S(y), S(x \div y)) /\ IsFloorDiv(S(-x), S(y), S((-x) \div y))
                /\ ~IsFloorDiv(S(-x), S(y), S(((-x) \div y) + 1)) /\ ~IsFloorDiv(S(x), S(y), S((x \div y) - 1))
                /\ IsMod(S(-x), S(y), S((-x) % y), S((-x) \div y))
Root == y = 0 => \E r \in 0..210 : IsSqrt(B(x), B(r)) /\ r * r <= x /\ x < (r + 1) * (r + 1)
Logs == x > 0 => P2(Log2(B(x))) <= x /\ x < P2(Log2(B(x)) + 1) /\ P2(UpPow2(B(x))) >= x /\ (x > 1 => P2(UpPow2(B(x))) < 2 * x)
Dates == LET yr == (x % 3000) - 800 IN Days(yr + 1, 1, 1) = Days(yr, 12, 31) + 1 /\ Days(1970, 1, 1) = 0 /\ Days(2000, 3, 1) = 11017
Hash == Fnv32(<<97>>) = <<44, 41, 12, 228>> /\ Fnv64(<<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>
=============================================================================
