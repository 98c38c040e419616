------------------------------ MODULE Measure ------------------------------
(***************************************************************************)
(* What is measured on a 2D mesh [n, e, f] (nodes, edges, faces with their *)
(* corners): quality of edges, bad triangles, short links between faces,   *)
(* crossings of edges and faces with closed polylines.                     *)
(***************************************************************************)
EXTENDS Plane

Set(s) == {s[i] : i \in DOMAIN s}
Ring(M, f) == TLCEval([i \in DOMAIN M.f[f] |-> M.n[M.f[f][i]]])
Sides(M, f) == LET k == Len(M.f[f]) IN {{M.f[f][i], M.f[f][Nxt(i, k)]} : i \in 1..k}
Sane(M) == /\ \A i \in DOMAIN M.n : M.n[i] # <<>> /\ Abs(M.n[i][1]) < 1000 /\ Abs(M.n[i][2]) < 1000
           /\ \A x \in DOMAIN M.e : Set(M.e[x]) \subseteq DOMAIN M.n
           /\ \A f \in DOMAIN M.f : Set(M.f[f]) \subseteq DOMAIN M.n
\* the faces on both sides of every edge
FacesOf(M) == LET S == TLCEval([f \in DOMAIN M.f |-> Sides(M, f)])
              IN TLCEval([x \in DOMAIN M.e |-> {f \in DOMAIN M.f : Set(M.e[x]) \in S[f]}])
Areas(M) == TLCEval([f \in DOMAIN M.f |-> Area2(Ring(M, f))])
NoValue == -1

\* ratio of the areas beside an edge, the larger to the smaller one, in ten-thousandths
RatioIs(v, a, b) == LET s == Min2(a, b) IN Abs(v * s - 10000 * Max2(a, b)) <= s
Smooth(M, fo, v) == LET A == Areas(M)
                    IN \A x \in DOMAIN M.e :
                         IF Cardinality(fo[x]) # 2 THEN v[x] = NoValue
                         ELSE LET a == CHOOSE f \in fo[x] : TRUE
                                  b == CHOOSE f \in fo[x] : f # a
                              IN RatioIs(v[x], A[a], A[b])
\* cosine of the angle between an edge and the link of the faces beside it; none on the border of the mesh
Acute(P) == /\ Len(P) = 3
            /\ LET a == Dist2(P[1], P[2])
                   b == Dist2(P[2], P[3])
                   c == Dist2(P[3], P[1])
               IN a < b + c /\ b < a + c /\ c < a + b
\* the centres of acute triangles lie inside them; other centres may coincide on the edge: no link to compare with
OneCentre(M, F) == \E f \in F : ~Acute(Ring(M, f))
Orthogonal(M, fo, v, straight) ==
    \A x \in DOMAIN M.e :
        IF Cardinality(fo[x]) # 2 THEN v[x] = NoValue
        ELSE IF straight THEN v[x] \in {0, 1}
        ELSE (0 <= v[x] /\ v[x] <= 10000) \/ (v[x] = NoValue /\ OneCentre(M, fo[x]))
Lengths(M, v) == \A x \in DOMAIN M.e : v[x] < 45000 /\ Abs(v[x] * v[x] - 1000000 * Dist2(M.n[M.e[x][1]], M.n[M.e[x][2]])) <= v[x] + 1

\* faces all of whose edges have a value in the range
InRange(M, inr) == LET at == TLCEval([x \in DOMAIN M.e |-> Set(M.e[x])])
                   IN {f \in DOMAIN M.f : \A s \in Sides(M, f) : \E x \in DOMAIN M.e : at[x] = s /\ inr[x] = 1}
Closed(M, f) == Ring(M, f) \o <<M.n[M.f[f][1]]>>
RECURSIVE Pick(_, _, _)
Pick(M, F, f) == IF f > Len(M.f) THEN <<>> ELSE (IF f \in F THEN <<Closed(M, f)>> ELSE <<>>) \o Pick(M, F, f + 1)
RECURSIVE Size(_)
Size(P) == IF P = <<>> THEN 0 ELSE Len(P[1]) + (IF Len(P) > 1 THEN 1 ELSE 0) + Size(Tail(P))

Obtuse(M, f) == Len(M.f[f]) = 3 /\ LET P == Ring(M, f)
                                       a == Dist2(P[1], P[2])
                                       b == Dist2(P[2], P[3])
                                       c == Dist2(P[3], P[1])
                                   IN a > b + c \/ b > a + c \/ c > a + b
Sum3(M, f) == LET P == Ring(M, f) IN <<P[1][1] + P[2][1] + P[3][1], P[1][2] + P[2][2] + P[3][2]>>
RECURSIVE ObtuseCentres(_, _)
ObtuseCentres(M, f) == IF f > Len(M.f) THEN <<>> ELSE (IF Obtuse(M, f) THEN <<Sum3(M, f)>> ELSE <<>>) \o ObtuseCentres(M, f + 1)

\* meshes of rectangles: the link of two neighbours is short compared with the roots of their areas (t: threshold in tenths)
Root(a) == CHOOSE k \in 0..3000 : k * k <= 10000 * a /\ 10000 * a < (k + 1) * (k + 1)     \* in hundredths
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Twice(M, f) == LET P == Ring(M, f) IN [c \in 1..2 |-> MinOf({P[i][c] : i \in DOMAIN P}) + MaxOf({P[i][c] : i \in DOMAIN P})]   \* twice the centre
Flow(M, t, C) ==
    LET fo == FacesOf(M)
        A == Areas(M)
        inner == {x \in DOMAIN M.e : Cardinality(fo[x]) = 2}
        one(x) == CHOOSE f \in fo[x] : TRUE
        two(x) == CHOOSE f \in fo[x] : f # one(x)
        link(x) == Abs(Twice(M, one(x))[1] - Twice(M, two(x))[1]) + Abs(Twice(M, one(x))[2] - Twice(M, two(x))[2])    \* twice its length
        roots(x) == Root(A[one(x)] \div 2) + Root(A[two(x)] \div 2)
        mid(x) == LET a == Twice(M, one(x))
                      b == Twice(M, two(x))
                  IN <<a[1] + b[1], a[2] + b[2]>>
        sure == {x \in inner : 1000 * link(x) < t * roots(x)}
        may == {x \in inner : 1000 * link(x) <= t * (roots(x) + 2)}
    IN /\ {mid(x) : x \in sure} \subseteq Set(C) /\ Set(C) \subseteq {mid(x) : x \in may}
       /\ Cardinality(Set(C)) = Len(C)

(***************************************************************************)
(* Crossings with closed polylines R (coordinates doubled).                *)
(***************************************************************************)
D2(p) == <<2 * p[1], 2 * p[2]>>
EdgeA(M, x) == D2(M.n[M.e[x][1]])
EdgeB(M, x) == D2(M.n[M.e[x][2]])
SegA(R, g) == R[g]
SegB(R, g) == R[Nxt(g, Len(R))]
\* nothing touches
General(M, R) == /\ \A k \in DOMAIN R : \A g \in DOMAIN R[k] : \A x \in DOMAIN M.e : ~OnSegment(R[k][g], EdgeA(M, x), EdgeB(M, x))
                 /\ \A i \in DOMAIN M.n : \A k \in DOMAIN R : \A g \in DOMAIN R[k] : ~OnSegment(D2(M.n[i]), SegA(R[k], g), SegB(R[k], g))
Crossed(M, R) == {x \in DOMAIN M.e : \E k \in DOMAIN R : \E g \in DOMAIN R[k] : ProperCross(SegA(R[k], g), SegB(R[k], g), EdgeA(M, x), EdgeB(M, x))}
At(p, q, a, b) == LET den == (q[1] - p[1]) * (b[2] - a[2]) - (q[2] - p[2]) * (b[1] - a[1])
                      num == (a[1] - p[1]) * (b[2] - a[2]) - (a[2] - p[2]) * (b[1] - a[1])
                  IN IF den > 0 THEN <<num, den>> ELSE <<-num, -den>>
Pos(v, r) == Abs(v * r[2] - 1000 * r[1]) <= r[2]
\* a reported crossing: edge x with its node on the right of the polyline first, at t along the edge, in segment g at u along the segment
True1(M, R, c) ==
    /\ c.e \in DOMAIN M.e /\ {c.a, c.b} = Set(M.e[c.e])
    /\ \E k \in DOMAIN R : c.g \in DOMAIN R[k] /\
         LET p == SegA(R[k], c.g)
             q == SegB(R[k], c.g)
             a == EdgeA(M, c.e)
             b == EdgeB(M, c.e)
         IN /\ ProperCross(p, q, a, b)
            /\ Pos(c.t, At(a, b, p, q)) /\ Pos(c.u, At(p, q, a, b))
            /\ Cross(p, q, D2(M.n[c.a])) < 0
Crossings(M, R, X, F, per) ==
    LET fo == FacesOf(M)
        hit == Crossed(M, R)
        with == {x \in DOMAIN M.e : fo[x] # {}}
    IN /\ \A i \in DOMAIN X : True1(M, R, X[i])
       /\ \A i, j \in DOMAIN X : i < j => X[i].e # X[j].e
       /\ hit \cap with \subseteq {X[i].e : i \in DOMAIN X}
       /\ (Len(R) = 1 => \A i \in 1..(Len(X) - 1) : X[i].g < X[i + 1].g \/ (X[i].g = X[i + 1].g /\ X[i].u <= X[i + 1].u))
       /\ Set(F) = {<<f, x>> \in (DOMAIN M.f) \X hit : f \in fo[x]}
       /\ SumTo(per, Len(per)) = Len(F)
       /\ \A k \in DOMAIN per : LET o == SumTo(per, k - 1) IN per[k] > 0 /\ \A i \in (o + 1)..(o + per[k]) : F[i][1] = F[o + 1][1]
       /\ (Len(R) = 1 => Cardinality(Set(F)) = Len(F) /\ Len(per) = Cardinality({F[i][1] : i \in DOMAIN F}))
=============================================================================
