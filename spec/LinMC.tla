------------------------------- MODULE LinMC -------------------------------
(* Laws that tie the definitions together, on every small operand: they would not hold of a wrong definition. *)
EXTENDS LinSpec, FiniteSets
CONSTANT D
E2 == -1..1
V2 == {<<a, b>> : a, b \in E2}
M2 == {<<p, q>> : p, q \in V2}
V3 == {<<a, b, c>> : a, b, c \in E2}
Init == v = <<<<0, 0>>, <<0, 0>>>> /\ m = <<Ident(2), Ident(2)>>
Next == (v[1] = <<0, 0>> /\ \E x \in V2 : SetV(1, x)) \/ (m[1] = Ident(2) /\ \E x \in M2 : SetM(1, x)) \/ (m[2] = Ident(2) /\ \E x \in M2 : SetM(2, x) /\ Abs1(Det(x)) <= D)
Spec == Init /\ [][Next]_lv
Laws == /\ Det(Mul(m[1], m[2])) = Det(m[1]) * Det(m[2])
        /\ Trans(Mul(m[1], m[2])) = Mul(Trans(m[2]), Trans(m[1]))
        /\ RowMul(v[1], m[1]) = ColMul(Trans(m[1]), v[1])
        /\ RowMul(RowMul(v[1], m[1]), m[2]) = RowMul(v[1], Mul(m[1], m[2]))
        /\ MZip("+", m[1], MMap("*", m[1], -1)) = MMap("*", m[1], 0)
Turns == \A p, q \in 0..3 : Mul(Rot2(p), Rot2(q)) = Rot2(p + q) /\ \A ax \in {"x", "y", "z"} : Det(Rot(3, ax, p)) = 1 /\ Mul(Rot(3, ax, p), Trans(Rot(3, ax, p))) = Ident(3)
Crossed == \A a, b \in V3 : Dot(Cross3(a, b), a) = 0 /\ Cross3(a, b) = [k \in 1..3 |-> -Cross3(b, a)[k]] /\ Dot(Cross3(a, b), Cross3(a, b)) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b)
(* turning about an axis by 2*atan(w/1): quaternions with w = 1 and one axis give quarter turns *)
Quats == \A s \in {-1, 1} : /\ QRot(<<s, 0, 0, 1>>) = MMap("*", Rot(3, "x", IF s = 1 THEN 1 ELSE 3), 2) /\ QRot(<<0, s, 0, 1>>) = MMap("*", Rot(3, "y", IF s = 1 THEN 1 ELSE 3), 2)
                            /\ QRot(<<0, 0, s, 1>>) = MMap("*", Rot(3, "z", IF s = 1 THEN 1 ELSE 3), 2)
Fixpoint == \A q \in 0..3, c \in V2 : ColMul(Affine(3, <<0, 0>>, q, c), c \o <<1>>) = c \o <<1>>
Ordered == \A a, b \in V3 : (Compare(a, b)[1] <=> Compare(b, a)[3]) /\ (Compare(a, b)[5] <=> a = b)
ASSUME Turns /\ Crossed /\ Quats /\ Fixpoint /\ Ordered
=============================================================================
