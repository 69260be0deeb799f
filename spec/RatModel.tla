------------------------------ MODULE RatModel ------------------------------
EXTENDS RatSpec
CONSTANT B
VARIABLES a, b
Init == \E n, m \in -B..B : \E d, e \in 1..B : a = <<n, d>> /\ b = <<m, e>> /\ IsRat(a) /\ IsRat(b)
Next == UNCHANGED <<a, b>>
AlgOK == /\ AlgAdd(a, b, 1) = Plus(a, b) /\ AlgAdd(a, b, -1) = Minus(a, b) /\ AlgMul(a, b) = Times(a, b)
         /\ (b[1] # 0 => AlgDiv(a, b) = Over(a, b))
         /\ IsRat(Plus(a, b)) /\ IsRat(Times(a, b))
         /\ (Less(a, b) \/ Less(b, a) \/ a = b) /\ ~(Less(a, b) /\ Less(b, a))
=============================================================================
