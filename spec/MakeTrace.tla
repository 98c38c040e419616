----------------------------- MODULE MakeTrace -----------------------------
(* Conformance of recorded generation of meshes, grids and networks (harness/fam_make.py). *)
EXTENDS Make, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

\* generated as a mesh, or as a grid
RectOk(e) ==
    LET c == IF e.how = "size" THEN e.cols ELSE Ceil(e.w, e.u[1])
        r == IF e.how = "size" THEN e.rows ELSE Ceil(e.h, e.v[2])
    IN IF e.as_ = "mesh"
       THEN Sane(Set(e.N.n)) /\ Adds(e.M, e.N, LatNodes(e.o, e.u, e.v, 0..c, 0..r), LatLinks(e.o, e.u, e.v, c, r)) /\ Len(e.N.f) = Len(e.M.f) + c * r
       ELSE IsGrid(e.G, e.o, e.u, e.v, c, r)
\* a thin triangle may hold no cell at all
Slim(e) == e.rc # 0 /\ e.how = "polygon" /\ Len(e.P) = 3 /\ Abs(Cross(e.P[1], e.P[2], e.P[3])) < 12 * Dot(e.u, e.u) + 12 * Dot(e.v, e.v)
PolyOk(e) ==
    /\ (Len(e.P) = 4 /\ \E a, b \in DOMAIN e.P : Abs(e.P[a][1] - e.P[b][1]) >= 2 * (Abs(e.u[1]) + Abs(e.v[1])) /\ Abs(e.P[a][2] - e.P[b][2]) >= 2 * (Abs(e.u[2]) + Abs(e.v[2])))
         => (IF e.as_ = "mesh" THEN Len(e.N.n) > Len(e.M.n) ELSE GridNodes(e.G) # {})
    /\ IF e.as_ = "mesh"
       THEN LET k == Len(e.M.n) IN Sane({e.N.n[i] : i \in (k + 1)..Len(e.N.n)}) /\ Keeps(e.M, e.N) /\ FillsPolygon({e.N.n[i] : i \in (k + 1)..Len(e.N.n)} \ {<<>>}, Links(e.N, k + 1), e.P, e.u, e.v)
       ELSE Sane(GridNodes(e.G)) /\ FillsPolygon(GridNodes(e.G), GridLinks(e.G), e.P, e.u, e.v)
TransOk(e) ==
    LET at(i, j) == Lat(e.o, e.u, e.v, e.A[i], e.B[j])
        a == Len(e.A)
        b == Len(e.B)
    IN /\ \/ Len(e.G) = b /\ Len(e.G[1]) = a
          \/ Len(e.G) = a /\ Len(e.G[1]) = b
       /\ GridNodes(e.G) = {at(i, j) : i \in 1..a, j \in 1..b}
       /\ GridLinks(e.G) = {{at(i, j), at(i + 1, j)} : i \in 1..(a - 1), j \in 1..b} \cup {{at(i, j), at(i, j + 1)} : i \in 1..a, j \in 1..(b - 1)}
\* straight splines that cross at right angles: lines between opposite ones are straight, their crossings are nodes (to a
\* hundredth), with the asked number of steps, in order, in between
Near(a, b) == Abs(a - b) <= 3
SplinesOk(e) ==
    LET at(t, i, j) == IF t THEN e.G[i][j] ELSE e.G[j][i]          \* t: the first index runs along x
        rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
        steps(K, m, V) ==                                          \* V: the coordinates along one line, K: those of the crossings
            /\ Len(V) = (Len(K) - 1) * m + 1
            /\ \A i \in DOMAIN K : Near(K[i], V[(i - 1) * m + 1])
            /\ \A i \in 1..(Len(V) - 1) : Sgn(V[i + 1] - V[i]) = Sgn(K[2] - K[1])
        fits(t, X, m, Y, n) ==
            LET w == (Len(X) - 1) * m + 1
                h == (Len(Y) - 1) * n + 1
            IN /\ Len(e.G) = (IF t THEN w ELSE h) /\ \A k \in DOMAIN e.G : Len(e.G[k]) = (IF t THEN h ELSE w) /\ \A i \in DOMAIN e.G[k] : e.G[k][i] # <<>>
               /\ steps(X, m, [i \in 1..w |-> at(t, i, 1)[1]]) /\ steps(Y, n, [j \in 1..h |-> at(t, 1, j)[2]])
               /\ \A i \in 1..w, j \in 1..h : Near(at(t, i, j)[1], at(t, i, 1)[1]) /\ Near(at(t, i, j)[2], at(t, 1, j)[2])
    IN \E m \in {<<e.m, e.n>>, <<e.n, e.m>>}, t \in BOOLEAN, X \in {e.X, rev(e.X)}, Y \in {e.Y, rev(e.Y)} : fits(t, X, m[1], Y, m[2])
DelaunayOk(e) ==
    LET k == Len(e.M.n)
        mine == {{e.N.n[i] : i \in Set(e.N.f[f])} : f \in {g \in DOMAIN e.N.f : \A i \in Set(e.N.f[g]) : i > k}}
    IN /\ Keeps(e.M, e.N) /\ Sane({e.N.n[i] : i \in (k + 1)..Len(e.N.n)})
       /\ \A i \in (k + 1)..Len(e.N.n) : e.N.n[i] \in Set(e.S)
       /\ \A i, j \in (k + 1)..Len(e.N.n) : i < j => e.N.n[i] # e.N.n[j]
       /\ Delaunay(e.S, mine)
NetworkOk(e) == LET L == NetworkLinks(e.L, e.F, e.off, e.face, e.step) IN Adds(e.D0, e.D, UNION L, L)

Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "rect" /\ ~Slim(e) /\ (e.rc # 0 \/ ~(IF e.how = "polygon" THEN PolyOk(e) ELSE RectOk(e))) THEN {"rectangular"} ELSE {})
    \cup (IF e.k = "transfinite" /\ (e.rc # 0 \/ ~TransOk(e)) THEN {"transfinite"} ELSE {})
    \cup (IF e.k = "splines" /\ (e.rc # 0 \/ ~SplinesOk(e)) THEN {"transfinite"} ELSE {})
    \cup (IF e.k = "delaunay" /\ (e.rc # 0 \/ ~DelaunayOk(e)) THEN {"triangles"} ELSE {})
    \cup (IF e.k = "network" /\ (e.rc # 0 \/ ~NetworkOk(e)) THEN {"network"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) \o (IF "how" \in DOMAIN e THEN " " \o e.how \o " " \o e.as_ ELSE "") ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
