------------------------------- MODULE GeoMC -------------------------------
(* The definitions agree with each other on every placement of four points of a small grid. *)
EXTENDS GeoSpec
CONSTANT N
Pt == (0..N) \X (0..N)
Init == r = <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
Next == \E i \in 1..4, p \in Pt : r' = [r EXCEPT ![i] = p]
Spec == Init /\ [][Next]_r
Quad(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[1], b[1]) + 1, Max2(a[2], b[2]) + 1>>
Poly(x) == <<<<x[1], x[2]>>, <<x[3], x[2]>>, <<x[3], x[4]>>, <<x[1], x[4]>>>>
Agree == LET a == r[1] b == r[2] c == r[3] d == r[4] x == Quad(c, d) y == Quad(a, b) t == <<a, b, c>> IN
  /\ (a # b /\ c # d => /\ SegsMeet(a, b, c, d) = SegsMeet(c, d, a, b) /\ SegsMeet(a, b, c, d) = SegsMeet(b, a, c, d)
                        /\ (Den(a, b, c, d) # 0 => (SegsMeet(a, b, c, d) <=> Side(a, b, c) * Side(a, b, d) <= 0 /\ Side(c, d, a) * Side(c, d, b) <= 0)))
  /\ (a # b => /\ Sq(SegNear(a, b, c)[1] - QA(a, b) * c[1]) + Sq(SegNear(a, b, c)[2] - QA(a, b) * c[2]) = SegDist(a, b, c) * QA(a, b)
               /\ (\A p \in Pt : OnEdge(a, b, p) => Norm(Sub(c, p)) * QA(a, b) >= SegDist(a, b, c))
               /\ ~(SegApart(x, a, b) /\ SegInside(x, a, b))
               /\ ((\E p \in Pt : OnEdge(a, b, p) /\ p[1] >= x[1] /\ p[1] <= x[3] /\ p[2] >= x[2] /\ p[2] <= x[4]) => ~SegApart(x, a, b))
               /\ (\A k \in 1..2 : (~OnCircle(a, c, k) /\ ~OnCircle(b, c, k) => /\ SegHits(a, b, c, k) <= RayHits(a, b, c, k) /\ RayHits(a, b, c, k) <= LineHits(a, b, c, k)
                                                                                 /\ SegHits(a, b, c, k) = SegHits(b, a, c, k)
                                                                                 /\ (SegHits(a, b, c, k) > 0 => SegDist(a, b, c) <= Sq(k) * QA(a, b)))))
  /\ (RHasR(x, y) => RMeet(x, y) /\ Hull(x, y) = x /\ Common(x, y) = y) /\ RMeet(x, y) = RMeet(y, x) /\ RHasR(Hull(x, y), y)
  /\ (\A p \in Pt : /\ (RMeet(x, y) => (RHas(Common(x, y), p) <=> RHas(x, p) /\ RHas(y, p)))
                    /\ (~OnOutline(Poly(x), p) => RHas(x, p) = EvenOdd(Poly(x), p))
                    /\ (Area2(t) # 0 => (ConvexHas(t, p) <=> OnOutline(t, p) \/ EvenOdd(t, p))))
  /\ OneTurn(t) /\ Area2(t) = Side(a, b, c) /\ Area2(Poly(x)) = 2 * (x[3] - x[1]) * (x[4] - x[2])
  /\ Moment(t, 1) = Area2(t) * (a[1] + b[1] + c[1]) /\ Moment(t, 2) = Area2(t) * (a[2] + b[2] + c[2])
=============================================================================
