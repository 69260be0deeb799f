------------------------------ MODULE GeoSpec ------------------------------
(* Plane figures with integer coordinates.  Points are <<x, y>>, circles a centre and a radius, rectangles <<left, top, right, bottom>>, *)
(* polygons sequences of points.  Everything is decided without division or roots: a claim about p/q is a claim about p and q.           *)
EXTENDS Integers, Sequences
VARIABLES r                  \* rectangle registers
Sq(x) == x * x
Sub(p, q) == [k \in DOMAIN p |-> p[k] - q[k]]
RECURSIVE NormTo(_, _)
NormTo(v, n) == IF n = 0 THEN 0 ELSE Sq(v[n]) + NormTo(v, n - 1)
Norm(v) == NormTo(v, Len(v))                                   \* squared length
Dot2(u, v) == u[1] * v[1] + u[2] * v[2]
Cr(u, v) == u[1] * v[2] - u[2] * v[1]
Side(a, b, p) == Cr(Sub(b, a), Sub(p, a))                      \* of p, seen along a -> b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs2(a) == IF a < 0 THEN -a ELSE a
Sg(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
(* ---- balls (open) ---- *)
BallHas(c, R, p) == Norm(Sub(p, c)) < Sq(R)
BallHasBall(c, R, d, S) == R > S /\ Norm(Sub(d, c)) < Sq(R - S)
BallsMeet(c, R, d, S) == Norm(Sub(d, c)) < Sq(R + S)
OutlinesMeet(c, R, d, S) == Norm(Sub(d, c)) <= Sq(R + S) /\ Norm(Sub(d, c)) >= Sq(R - S)
(* ---- a line through a and b against the outline of a circle: roots of A t^2 + B t + C ---- *)
QA(a, b) == Norm(Sub(b, a))
QB(a, b, c) == 2 * Dot2(Sub(a, c), Sub(b, a))
QC(a, c, R) == Norm(Sub(a, c)) - Sq(R)
Disc(a, b, c, R) == Sq(QB(a, b, c)) - 4 * QA(a, b) * QC(a, c, R)
OnCircle(p, c, R) == QC(p, c, R) = 0
LineHits(a, b, c, R) == IF Disc(a, b, c, R) < 0 THEN 0 ELSE 2
RayHits(a, b, c, R) == IF QC(a, c, R) < 0 THEN 1 ELSE IF Disc(a, b, c, R) >= 0 /\ QB(a, b, c) < 0 THEN 2 ELSE 0             \* a not on the circle
SegHits(a, b, c, R) == IF QC(a, c, R) < 0 /\ QC(b, c, R) < 0 THEN 0
                       ELSE IF QC(a, c, R) < 0 \/ QC(b, c, R) < 0 THEN 1
                       ELSE IF Disc(a, b, c, R) >= 0 /\ QB(a, b, c) < 0 /\ -QB(a, b, c) < 2 * QA(a, b) THEN 2 ELSE 0         \* neither end on the circle
(* ---- nearest points and distances, times the squared length of the line ---- *)
Proj(a, b, p) == Dot2(Sub(p, a), Sub(b, a))
Clamp(u, lo, hi) == IF u < lo THEN lo ELSE IF u > hi THEN hi ELSE u
At(a, b, u) == LET L == QA(a, b) IN <<a[1] * L + u * (b[1] - a[1]), a[2] * L + u * (b[2] - a[2])>>
LineNear(a, b, p) == At(a, b, Proj(a, b, p))
RayNear(a, b, p) == At(a, b, Max2(Proj(a, b, p), 0))
SegNear(a, b, p) == At(a, b, Clamp(Proj(a, b, p), 0, QA(a, b)))
LineDist(a, b, p) == Sq(Side(a, b, p))
SegDist(a, b, p) == IF Proj(a, b, p) < 0 THEN Norm(Sub(p, a)) * QA(a, b) ELSE IF Proj(a, b, p) > QA(a, b) THEN Norm(Sub(p, b)) * QA(a, b) ELSE LineDist(a, b, p)
(* ---- two lines / segments a-b and c-d ---- *)
Den(a, b, c, d) == Cr(Sub(b, a), Sub(d, c))
TNum(a, b, c, d) == Cr(Sub(c, a), Sub(d, c))
UNum(a, b, c, d) == Cr(Sub(c, a), Sub(b, a))
Within(n, q) == q # 0 /\ (IF q > 0 THEN n >= 0 /\ n <= q ELSE n <= 0 /\ n >= q)
SegsMeet(a, b, c, d) == Within(TNum(a, b, c, d), Den(a, b, c, d)) /\ Within(UNum(a, b, c, d), Den(a, b, c, d))
Cross(a, b, c, d) == LET q == Den(a, b, c, d) t == TNum(a, b, c, d) IN <<a[1] * q + t * (b[1] - a[1]), a[2] * q + t * (b[2] - a[2])>>   \* times q
(* ---- sectors of a ring around c, from direction u counterclockwise (with y upwards) to direction w ---- *)
Flip(p) == <<p[1], -p[2]>>
OnRay(u, w, v) == Cr(u, v) = 0 \/ Cr(w, v) = 0
Sweep(u, w, v) == IF Cr(u, w) > 0 THEN Cr(u, v) > 0 /\ Cr(v, w) > 0 ELSE IF Cr(u, w) < 0 THEN ~(Cr(w, v) > 0 /\ Cr(v, u) > 0) ELSE IF Dot2(u, w) < 0 THEN Cr(u, v) > 0 ELSE TRUE
InRing(c, i, o, p) == Norm(Sub(p, c)) >= Sq(i) /\ Norm(Sub(p, c)) <= Sq(o)
InSector(c, i, o, u, w, p) == InRing(c, i, o, p) /\ Sweep(u, w, Flip(Sub(p, c)))
Clear(c, u, w, p) == ~OnRay(u, w, Flip(Sub(p, c)))                                                  \* not on a border
StrictRing(c, i, o, p) == Norm(Sub(p, c)) > Sq(i) /\ Norm(Sub(p, c)) < Sq(o)
(* ---- rectangles ---- *)
RHas(x, p) == p[1] >= x[1] /\ p[2] >= x[2] /\ p[1] < x[3] /\ p[2] < x[4]
RHasR(x, y) == y[1] >= x[1] /\ y[2] >= x[2] /\ y[3] <= x[3] /\ y[4] <= x[4]
RMeet(x, y) == y[1] <= x[3] /\ y[2] <= x[4] /\ y[3] >= x[1] /\ y[4] >= x[2]
Gap(lo, hi, v) == IF v < lo THEN lo - v ELSE IF v > hi THEN v - hi ELSE 0
RMeetsCircle(x, c, R) == Sq(Gap(x[1], x[3], c[1])) + Sq(Gap(x[2], x[4], c[2])) <= Sq(R)
Corners(x) == {<<x[1], x[2]>>, <<x[1], x[4]>>, <<x[3], x[2]>>, <<x[3], x[4]>>}
SegApart(x, a, b) == \/ Max2(a[1], b[1]) < x[1] \/ Min2(a[1], b[1]) > x[3] \/ Max2(a[2], b[2]) < x[2] \/ Min2(a[2], b[2]) > x[4]
                     \/ (\A q \in Corners(x) : Side(a, b, q) > 0) \/ (\A q \in Corners(x) : Side(a, b, q) < 0)
SegInside(x, a, b) == /\ Max2(a[1], b[1]) > x[1] /\ Min2(a[1], b[1]) < x[3] /\ Max2(a[2], b[2]) > x[2] /\ Min2(a[2], b[2]) < x[4]      \* meets the open rectangle
                      /\ (\E q \in Corners(x) : Side(a, b, q) > 0) /\ (\E q \in Corners(x) : Side(a, b, q) < 0)
Canon(x) == <<Min2(x[1], x[3]), Min2(x[2], x[4]), Max2(x[1], x[3]), Max2(x[2], x[4])>>
Hull(x, y) == <<Min2(x[1], y[1]), Min2(x[2], y[2]), Max2(x[3], y[3]), Max2(x[4], y[4])>>
Common(x, y) == IF RMeet(x, y) THEN <<Max2(x[1], y[1]), Max2(x[2], y[2]), Min2(x[3], y[3]), Min2(x[4], y[4])>> ELSE <<x[1], x[2], x[1], x[2]>>
Grow(x, n) == <<x[1] - n, x[2] - n, x[3] + n, x[4] + n>>
ROp(o, a, b) == CASE o = "+" -> a + b [] o = "-" -> a - b [] o = "*" -> a * b
RZip(o, x, y) == [k \in 1..4 |-> ROp(o, x[k], y[k])]
RECURSIVE LexLess(_, _, _)
LexLess(x, y, k) == IF k > 4 THEN FALSE ELSE x[k] < y[k] \/ (x[k] = y[k] /\ LexLess(x, y, k + 1))
SetR(i, x) == r' = [r EXCEPT ![i] = x]
(* ---- polygons ---- *)
Nx(v, i) == v[IF i = Len(v) THEN 1 ELSE i + 1]
OnEdge(a, b, p) == Side(a, b, p) = 0 /\ p[1] >= Min2(a[1], b[1]) /\ p[1] <= Max2(a[1], b[1]) /\ p[2] >= Min2(a[2], b[2]) /\ p[2] <= Max2(a[2], b[2])
OnOutline(v, p) == \E i \in 1..Len(v) : OnEdge(v[i], Nx(v, i), p)
RightOf(a, b, p) == (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Side(a, b, p) > 0 ELSE Side(a, b, p) < 0)   \* the edge crosses the ray from p to the right
RECURSIVE CrossTo(_, _, _)
CrossTo(v, p, n) == IF n = 0 THEN 0 ELSE CrossTo(v, p, n - 1) + (IF RightOf(v[n], Nx(v, n), p) THEN 1 ELSE 0)
EvenOdd(v, p) == CrossTo(v, p, Len(v)) % 2 = 1
Turn(v, i) == Sg(Side(v[IF i = 1 THEN Len(v) ELSE i - 1], v[i], Nx(v, i)))
OneTurn(v) == ~(\E i, j \in 1..Len(v) : Turn(v, i) = 1 /\ Turn(v, j) = -1)
ConvexHas(v, p) == ~(\E i, j \in 1..Len(v) : Side(v[i], Nx(v, i), p) > 0 /\ Side(v[j], Nx(v, j), p) < 0)
RECURSIVE SumTo(_, _, _)
Term(o, a, b) == CASE o = 0 -> Cr(a, b) [] OTHER -> (a[o] + b[o]) * Cr(a, b)
SumTo(o, v, n) == IF n = 0 THEN 0 ELSE SumTo(o, v, n - 1) + Term(o, v[n], Nx(v, n))
Area2(v) == SumTo(0, v, Len(v))                                \* twice the signed area
Moment(v, o) == SumTo(o, v, Len(v))                            \* six times the area times a coordinate of the centroid
RECURSIVE BoxTo(_, _)
BoxTo(v, n) == IF n = 1 THEN <<v[1][1], v[1][2], v[1][1], v[1][2]>> ELSE Hull(BoxTo(v, n - 1), <<v[n][1], v[n][2], v[n][1], v[n][2]>>)
Box(v) == BoxTo(v, Len(v))
=============================================================================
