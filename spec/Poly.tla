-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Operations on closed polygons.  A ring is given without its closing     *)
(* point; the library's results carry it.  Node indices run over the ring  *)
(* with its closing point.                                                 *)
(***************************************************************************)
EXTENDS Plane

\* length of a side of whole length: axis-parallel or a multiple of (3, 4)
Len2(a, b) == LET x == Abs(a[1] - b[1])
                  y == Abs(a[2] - b[2])
              IN IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE IF 3 * x = 4 * y THEN (5 * y) \div 3 ELSE (5 * x) \div 3
At(P, i) == P[IF i = Len(P) + 1 THEN 1 ELSE i]
\* sides (by their first node) between the nodes i and j, going on over the start when j comes before i
SidesBetween(P, i, j) == IF i = 1 /\ j = 1 THEN 1..Len(P) ELSE IF i < j THEN i..(j - 1) ELSE IF i = j THEN {} ELSE (i..Len(P)) \cup (1..(j - 1))

\* refinement: every side between i and j is cut in equal parts, as many as come closest to the wanted length
Parts(a, b, d) == LET n == (2 * Len2(a, b) + d) \div (2 * d) IN IF n = 0 THEN 1 ELSE n
Cut(a, b, n) == [k \in 1..n |-> <<a[1] + ((b[1] - a[1]) * (k - 1)) \div n, a[2] + ((b[2] - a[2]) * (k - 1)) \div n>>]
RECURSIVE Refined(_, _, _, _)
Refined(P, S, d, k) == IF k > Len(P) THEN <<P[1]>>
                       ELSE Cut(P[k], At(P, k + 1), IF k \in S THEN Parts(P[k], At(P, k + 1), d) ELSE 1) \o Refined(P, S, d, k + 1)

\* offset: every node lies at the distance d to the right of both of its sides
Straight(a, p, b) == Cross(a, p, b) = 0
OffsetOf(P, Q, d) ==
    /\ Len(Q) = Len(P) + 1 /\ Q[1] = Q[Len(Q)]
    /\ \A i \in DOMAIN P :
         LET p == P[i]
             q == Q[i]
             a == P[IF i = 1 THEN Len(P) ELSE i - 1]
             b == At(P, i + 1)
             right(u, v) == Abs(Cross(u, v, <<u[1] + q[1] - p[1], u[2] + q[2] - p[2]>>) + d * Len2(u, v)) <= 2 * Len2(u, v)
             along(u, v) == Abs((v[1] - u[1]) * (q[1] - p[1]) + (v[2] - u[2]) * (q[2] - p[2])) <= 2 * Len2(u, v)
         IN q # <<>> /\ Abs(q[1]) < 100000 /\ Abs(q[2]) < 100000 /\ right(a, p) /\ right(p, b) /\ (Straight(a, p, b) => along(p, b))

\* nearest points on axis-parallel polylines
Clamp(v, a, b) == Max2(Min2(a, b), Min2(Max2(a, b), v))
Foot(p, a, b) == <<Clamp(p[1], a[1], b[1]), Clamp(p[2], a[2], b[2])>>
Nearest(p, L) == LET F == UNION {{Foot(p, L[t][k], L[t][k + 1]) : k \in 1..(Len(L[t]) - 1)} : t \in DOMAIN L}
                 IN {f \in F : \A g \in F : Dist2(p, f) <= Dist2(p, g)}

\* linear refinement: the positions along the path of successive points, none before the one before it; -1 when a point is off the path
RECURSIVE Walk(_, _, _, _)
Walk(T, ch, Q, c) ==
    IF Q = <<>> THEN <<>>
    ELSE LET q == Q[1]
             on(k) == LET a == T[k]
                          b == T[k + 1]
                      IN /\ Min2(a[1], b[1]) - 2 <= q[1] /\ q[1] <= Max2(a[1], b[1]) + 2 /\ Min2(a[2], b[2]) - 2 <= q[2] /\ q[2] <= Max2(a[2], b[2]) + 2
             at(k) == ch[k] + Abs(q[1] - T[k][1]) + Abs(q[2] - T[k][2])
             C == {at(k) : k \in {m \in 1..(Len(T) - 1) : on(m)}}
             ok == {x \in C : x >= c - 4}
         IN IF q = <<>> \/ ok = {} THEN <<-1>>
            ELSE LET x == CHOOSE x \in ok : \A y \in ok : x <= y IN <<x>> \o Walk(T, ch, Tail(Q), x)
PathBetween(P, i, j) == IF i < j THEN [k \in 1..(j - i + 1) |-> At(P, i + k - 1)]
                        ELSE [k \in 1..(Len(P) + 1 - i + j) |-> At(P, IF i + k - 1 <= Len(P) + 1 THEN i + k - 1 ELSE i + k - 1 - Len(P))]
ChainOf(T) == TLCEval([k \in DOMAIN T |-> SumTo([m \in 1..(k - 1) |-> Len2(T[m], T[m + 1])], k - 1)])
=============================================================================
