------------------------------- MODULE Plane -------------------------------
(***************************************************************************)
(* Exact plane geometry on integer coordinates.  A point is <<x, y>>; a    *)
(* polygon is a sequence of points without repetition of the first one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

\* twice the signed area of the triangle a b c: positive when c lies to the left of a -> b
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Within(a, b, c) == Min2(a, b) <= c /\ c <= Max2(a, b)

OnSegment(p, a, b) == Within(a[1], b[1], p[1]) /\ Within(a[2], b[2], p[2]) /\ Cross(a, b, p) = 0
\* the open segments cross in one point
ProperCross(a, b, c, d) == /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
                           /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
\* the closed segments have a point in common
Meet(a, b, c, d) == \/ ProperCross(a, b, c, d)
                    \/ OnSegment(a, c, d) \/ OnSegment(b, c, d) \/ OnSegment(c, a, b) \/ OnSegment(d, a, b)

Nxt(i, n) == IF i = n THEN 1 ELSE i + 1
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* twice the signed area (positive: counter-clockwise)
Area2(P) == LET n == Len(P) IN SumTo([i \in 1..n |-> P[i][1] * P[Nxt(i, n)][2] - P[Nxt(i, n)][1] * P[i][2]], n)
\* six times the area times the centroid
Centroid6(P) ==
    LET n == Len(P)
        w == TLCEval([i \in 1..n |-> P[i][1] * P[Nxt(i, n)][2] - P[Nxt(i, n)][1] * P[i][2]])
    IN <<SumTo([i \in 1..n |-> (P[i][1] + P[Nxt(i, n)][1]) * w[i]], n), SumTo([i \in 1..n |-> (P[i][2] + P[Nxt(i, n)][2]) * w[i]], n)>>

OnBoundary(p, P) == \E i \in DOMAIN P : OnSegment(p, P[i], P[Nxt(i, Len(P))])
\* strictly inside (even-odd rule), for a point that is not on the boundary
StrictlyIn(p, P) ==
    LET n == Len(P)
        hit(i) == LET a == P[i] b == P[Nxt(i, n)]
                  IN /\ (a[2] > p[2]) # (b[2] > p[2])
                     /\ (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)
    IN Cardinality({i \in 1..n : hit(i)}) % 2 = 1
\* "in", "on" or "out"
Where(p, P) == IF OnBoundary(p, P) THEN "on" ELSE IF StrictlyIn(p, P) THEN "in" ELSE "out"

\* the same for an area bounded by several rings that do not meet (holes in polygons, polygons apart): even-odd
WhereIn(p, R) == IF \E k \in DOMAIN R : OnBoundary(p, R[k]) THEN "on"
                 ELSE IF Cardinality({k \in DOMAIN R : StrictlyIn(p, R[k])}) % 2 = 1 THEN "in" ELSE "out"

\* directions d1 before d2 in counter-clockwise order starting at the positive x-axis
Half(d) == IF d[2] > 0 \/ (d[2] = 0 /\ d[1] > 0) THEN 0 ELSE 1
Before(d1, d2) == \/ Half(d1) < Half(d2)
                  \/ Half(d1) = Half(d2) /\ d1[1] * d2[2] - d1[2] * d2[1] > 0
=============================================================================
