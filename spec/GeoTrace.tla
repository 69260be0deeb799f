------------------------------ MODULE GeoTrace -----------------------------
EXTENDS GeoSpec, TraceIO
VARIABLES run, l
vars == <<r, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ r = Runs[run].cfg.init
a1 == e.a[1]
a2 == e.a[2]
a3 == e.a[3]
a4 == e.a[4]
x1 == e.r[1]
Same == UNCHANGED r
S == 256                                                       \* points of an outline are rounded to this fraction
Near(u, v, tol) == u - v <= tol /\ v - u <= tol
On(p, c, R) == Near(Sq(p[1] - S * c[1]) + Sq(p[2] - S * c[2]), Sq(S * R), 6 * S * R + 16)
Along(p, a, b) == LET d == Sub(b, a) IN Near(Cr(d, <<p[1] - S * a[1], p[2] - S * a[2]>>), 0, 2 * (Abs2(d[1]) + Abs2(d[2])))
How(p, a, b) == Dot2(Sub(b, a), <<p[1] - S * a[1], p[2] - S * a[2]>>)          \* S times the parameter times the squared length
Hits(n, a, b, c, R) == Len(e.r[2]) = n /\ (\A k \in 1..n : On(e.r[2][k], c, R) /\ Along(e.r[2][k], a, b))
Ordered(a, b) == (Len(e.r[2]) = 2 => How(e.r[2][1], a, b) <= How(e.r[2][2], a, b) + 64)
InRay(a, b) == \A k \in 1..Len(e.r[2]) : How(e.r[2][k], a, b) >= -64
InSeg(a, b) == \A k \in 1..Len(e.r[2]) : How(e.r[2][k], b, a) >= -64
Step == \/ Is("BallHas") /\ x1 = BallHas(a1, a2, a3) /\ Same
        \/ Is("BallHasBall") /\ x1 = BallHasBall(a1, a2, a3, a4) /\ Same
        \/ Is("BallsMeet") /\ x1 = BallsMeet(a1, a2, a3, a4) /\ Same
        \/ Is("CircleNear") /\ On(x1, a1, a2) /\ Along(x1, a1, a3) /\ How(x1, a1, a3) > 0 /\ Same
        \/ Is("Circles") /\ (IF OutlinesMeet(a1, a2, a3, a4) THEN Hits(2, a1, a1, a1, a2) /\ (\A k \in 1..2 : On(e.r[2][k], a3, a4))
                                      /\ (Norm(Sub(a3, a1)) < Sq(a2 + a4) /\ Norm(Sub(a3, a1)) > Sq(a2 - a4) => e.r[2][1] # e.r[2][2]) ELSE x1 = 0) /\ Same
        \/ Is("LineCircle") /\ x1 = LineHits(a1, a2, a3, a4) /\ Hits(x1, a1, a2, a3, a4) /\ Ordered(a1, a2) /\ e.r[3] = (x1 > 0) /\ Same
        \/ Is("RayCircle") /\ ~OnCircle(a1, a3, a4) /\ x1 = RayHits(a1, a2, a3, a4) /\ Hits(x1, a1, a2, a3, a4) /\ Ordered(a1, a2) /\ InRay(a1, a2) /\ e.r[3] = (x1 > 0) /\ Same
        \/ Is("SegCircle") /\ x1 = SegHits(a1, a2, a3, a4) /\ Hits(x1, a1, a2, a3, a4) /\ Ordered(a1, a2) /\ InRay(a1, a2) /\ InSeg(a1, a2) /\ e.r[3] = (x1 > 0) /\ Same
        \/ Is("Nearest") /\ x1 = LineNear(a1, a2, a3) /\ e.r[2] = RayNear(a1, a2, a3) /\ e.r[3] = SegNear(a1, a2, a3) /\ e.r[4] = Proj(a1, a2, a3) /\ Same
        \/ Is("Dist") /\ x1 = LineDist(a1, a2, a3) /\ e.r[2] = LineDist(a1, a2, a3) /\ e.r[3] = SegDist(a1, a2, a3) /\ e.r[4] = SegDist(a1, a2, a3) /\ Same
        \/ Is("Lines") /\ x1 = (Den(a1, a2, a3, a4) # 0) /\ (x1 => e.r[2] = Cross(a1, a2, a3, a4)) /\ Same
        \/ Is("Segs") /\ x1 = SegsMeet(a1, a2, a3, a4) /\ (x1 => e.r[2] = Cross(a1, a2, a3, a4)) /\ e.r[3] = x1 /\ Same
        \/ Is("SegMeets") /\ x1 = SegsMeet(a1, a2, a3, a4) /\ Same
        \/ Is("LineAt") /\ x1 = <<a1[1] + a3 * (a2[1] - a1[1]), a1[2] + a3 * (a2[2] - a1[2])>> /\ e.r[2] = Norm(Sub(a2, a1)) /\ Same
        \/ Is("Ellipse") /\ x1 = (Sq((a3[1] - a1[1]) * a2[2]) + Sq((a3[2] - a1[2]) * a2[1]) <= Sq(a2[1] * a2[2])) /\ Same
        \/ Is("EllipseRect") /\ x1 = (Sq(Gap(a3[1], a3[3], a1[1]) * a2[2]) + Sq(Gap(a3[2], a3[4], a1[2]) * a2[1]) <= Sq(a2[1] * a2[2])) /\ Same
        \/ Is("Triangle") /\ Abs2(x1) = Abs2(Side(a1, a2, a3)) /\ Same
        \/ Is("Sector") /\ (Clear(a1, a3[1], a3[2], a4) => x1 = InSector(a1, a2[1], a2[2], a3[1], a3[2], a4)) /\ Same
        \/ Is("SectorLine") /\ (LET In(p) == Clear(a1, a3[1], a3[2], p) /\ StrictRing(a1, a2[1], a2[2], p) /\ InSector(a1, a2[1], a2[2], a3[1], a3[2], p) IN
                                 /\ (In(a4) \/ In(e.a[5]) => x1)
                                 /\ (SegDist(a4, e.a[5], a1) > Sq(a2[2]) * QA(a4, e.a[5]) => ~x1)
                                 /\ (Norm(Sub(a4, a1)) < Sq(a2[1]) /\ Norm(Sub(e.a[5], a1)) < Sq(a2[1]) => ~x1)) /\ Same
        \/ Is("SectorCircle") /\ (Clear(a1, a3[1], a3[2], a4) /\ StrictRing(a1, a2[1], a2[2], a4) /\ InSector(a1, a2[1], a2[2], a3[1], a3[2], a4) => x1)
                              /\ (Norm(Sub(a4, a1)) > Sq(a2[2] + e.a[5]) => ~x1) /\ (a2[1] > e.a[5] /\ Norm(Sub(a4, a1)) < Sq(a2[1] - e.a[5]) => ~x1) /\ Same
        \* rectangles
        \/ Is("RSet") /\ SetR(a1, a2)
        \/ Is("RCopy") /\ SetR(a1, r[a2])
        \/ Is("RHas") /\ x1 = RHas(r[a1], a2) /\ Same
        \/ Is("RHasR") /\ x1 = RHasR(r[a1], r[a2]) /\ Same
        \/ Is("RMeet") /\ x1 = RMeet(r[a1], r[a2]) /\ Same
        \/ Is("RCircle") /\ x1 = RMeetsCircle(r[a1], a2, a3) /\ Same
        \/ Is("RLine") /\ (SegApart(r[a1], a2, a3) => ~x1) /\ (SegInside(r[a1], a2, a3) => x1) /\ Same
        \/ Is("RCanon") /\ e.r[1] = (r[a2] = Canon(r[a2])) /\ SetR(a1, Canon(r[a2]))
        \/ Is("RUnion") /\ SetR(a1, Hull(r[a2], r[a3]))
        \/ Is("RCommon") /\ SetR(a1, Common(r[a2], r[a3]))
        \/ Is("RExpand") /\ SetR(a1, Hull(r[a2], <<a3[1], a3[2], a3[1], a3[2]>>))
        \/ Is("RGrow") /\ SetR(a1, Grow(r[a2], a3))
        \/ Is("RZip") /\ SetR(a1, RZip(a2, r[a3], a4))
        \/ Is("RNeg") /\ SetR(a1, [k \in 1..4 |-> -r[a2][k]])
        \/ Is("RAbs") /\ SetR(a1, [k \in 1..4 |-> Abs2(r[a2][k])])
        \/ Is("RInfo") /\ (LET x == r[a1] IN x1 = <<(x[3] - x[1]) * (x[4] - x[2]), x[1] + x[3], x[2] + x[4], x[3] - x[1], x[4] - x[2], Sq(x[3] - x[1]) + Sq(x[4] - x[2])>>) /\ Same
        \/ Is("RCmp") /\ (LET x == r[a1] y == r[a2] IN x1 = <<x = y, x # y, LexLess(x, y, 1), LexLess(y, x, 1), ~LexLess(x, y, 1), ~LexLess(y, x, 1)>>) /\ Same
        \* polygons
        \/ Is("PHas") /\ (OnOutline(a1, a2) \/ x1 = EvenOdd(a1, a2)) /\ Same
        \/ Is("PConvex") /\ x1 = OneTurn(a1) /\ Same
        \/ Is("PConvexHas") /\ x1 = ConvexHas(a1, a2) /\ Same
        \/ Is("PArea") /\ x1 = Area2(a1) /\ (Area2(a1) # 0 => e.r[2] = <<Moment(a1, 1), Moment(a1, 2)>>) /\ e.r[3] = Box(a1) /\ Same
Observed == e.s = r'
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
