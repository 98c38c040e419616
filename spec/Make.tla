-------------------------------- MODULE Make --------------------------------
(***************************************************************************)
(* What the generators of meshes, grids and networks produce.  A mesh is   *)
(* [n, e, f]; a grid a sequence of lines of nodes, missing ones empty.     *)
(* Everything generated is compared as sets of links: {p, q} is the edge   *)
(* between the nodes at p and q.                                           *)
(***************************************************************************)
EXTENDS Plane

Set(s) == {s[i] : i \in DOMAIN s}
Ceil(a, b) == (a + b - 1) \div b
Sane(P) == \A p \in P : p = <<>> \/ (Abs(p[1]) < 60000 /\ Abs(p[2]) < 60000)
\* links of a mesh, those of its nodes from i on
Links(M, i) == {{M.n[M.e[e][1]], M.n[M.e[e][2]]} : e \in {x \in DOMAIN M.e : M.e[x] # <<0, 0>> /\ M.e[x][1] >= i /\ M.e[x][2] >= i}}
GridLinks(G) == {{G[i][j], G[i][j + 1]} : <<i, j>> \in {<<a, b>> \in (DOMAIN G) \X (1..(Len(G[1]) - 1)) : G[a][b] # <<>> /\ G[a][b + 1] # <<>>}}
           \cup {{G[i][j], G[i + 1][j]} : <<i, j>> \in {<<a, b>> \in (1..(Len(G) - 1)) \X (DOMAIN G[1]) : G[a][b] # <<>> /\ G[a + 1][b] # <<>>}}
GridNodes(G) == {G[i][j] : i \in DOMAIN G, j \in (IF G = <<>> THEN {} ELSE DOMAIN G[1])} \ {<<>>}
\* a mesh keeps its nodes and edges when another is added to it
Keeps(M, N) == /\ Len(N.n) >= Len(M.n) /\ SubSeq(N.n, 1, Len(M.n)) = M.n
               /\ Len(N.e) >= Len(M.e) /\ SubSeq(N.e, 1, Len(M.e)) = M.e
\* the added part has these nodes and links, each once
Adds(M, N, P, L) ==
    LET new == {i \in (Len(M.n) + 1)..Len(N.n) : N.n[i] # <<>>}
        es == {x \in (Len(M.e) + 1)..Len(N.e) : N.e[x] # <<0, 0>>}
    IN /\ Keeps(M, N) /\ {N.n[i] : i \in new} = P /\ Cardinality(new) = Cardinality(P)
       /\ Links(N, Len(M.n) + 1) = L /\ Cardinality(es) = Cardinality(L)

Lat(o, u, v, i, j) == <<o[1] + i * u[1] + j * v[1], o[2] + i * u[2] + j * v[2]>>
LatNodes(o, u, v, I, J) == {Lat(o, u, v, i, j) : i \in I, j \in J}
LatLinks(o, u, v, c, r) == {{Lat(o, u, v, i, j), Lat(o, u, v, i + 1, j)} : i \in 0..(c - 1), j \in 0..r}
                      \cup {{Lat(o, u, v, i, j), Lat(o, u, v, i, j + 1)} : i \in 0..c, j \in 0..(r - 1)}
\* a grid of exactly c columns and r rows
IsGrid(G, o, u, v, c, r) == Len(G) = r + 1 /\ \A j \in DOMAIN G : Len(G[j]) = c + 1 /\ \A i \in DOMAIN G[j] : G[j][i] = Lat(o, u, v, i - 1, j - 1)

\* all cells of the lattice through p whose four corners lie inside the ring R, and nothing else
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
OnLattice(p, q, u, v) == LET d == <<q[1] - p[1], q[2] - p[2]>> IN Dot(d, u) % Dot(u, u) = 0 /\ Dot(d, v) % Dot(v, v) = 0
Span(R, p, u) == LET k == {Dot(<<R[i][1] - p[1], R[i][2] - p[2]>>, u) : i \in DOMAIN R}
                     lo == CHOOSE x \in k : \A y \in k : x <= y
                     hi == CHOOSE x \in k : \A y \in k : x >= y
                 IN (lo \div Dot(u, u))..(hi \div Dot(u, u))
FillsPolygon(P, L, R, u, v) ==
    P # {} =>
    LET p == CHOOSE q \in P : TRUE
        I == Span(R, p, u)
        J == Span(R, p, v)
        inn == TLCEval([x \in I \X J |-> Where(Lat(p, u, v, x[1], x[2]), R)])
        cells(how) == {x \in I \X J : \A y \in {x, <<x[1] + 1, x[2]>>, <<x[1], x[2] + 1>>, <<x[1] + 1, x[2] + 1>>} : y \in I \X J /\ inn[y] \in how}
        corner(x) == {Lat(p, u, v, x[1] + a, x[2] + b) : a \in 0..1, b \in 0..1}
        side(x) == LET c(a, b) == Lat(p, u, v, x[1] + a, x[2] + b) IN {{c(0, 0), c(1, 0)}, {c(0, 0), c(0, 1)}, {c(1, 1), c(1, 0)}, {c(1, 1), c(0, 1)}}
        sure == cells({"in"})
        may == cells({"in", "on"})
    IN /\ \A q \in P : OnLattice(p, q, u, v)
       /\ UNION {corner(x) : x \in sure} \subseteq P /\ P \subseteq UNION {corner(x) : x \in may}
       /\ UNION {side(x) : x \in sure} \subseteq L

\* Delaunay: p strictly inside the circle through a, b, c (counter-clockwise)
InCircle(a, b, c, p) ==
    LET d(q) == <<q[1] - p[1], q[2] - p[2], (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])>>
        x == d(a)
        y == d(b)
        z == d(c)
    IN x[3] * (y[1] * z[2] - y[2] * z[1]) - y[3] * (x[1] * z[2] - x[2] * z[1]) + z[3] * (x[1] * y[2] - x[2] * y[1])
Ccw(a, b, c) == IF Cross(a, b, c) > 0 THEN <<a, b, c>> ELSE <<a, c, b>>
Fair(a, b, c) ==   \* no angle below about 7 or above about 140 degrees: sin and cos of the angle at each corner
    LET ok(p, q, r) == LET s == Abs(Cross(p, q, r))
                           t == (q[1] - p[1]) * (r[1] - p[1]) + (q[2] - p[2]) * (r[2] - p[2])
                       IN 8 * s > Abs(t) /\ (t >= 0 \/ s * 10 > -t * 9)
    IN ok(a, b, c) /\ ok(b, c, a) /\ ok(c, a, b)
Delaunay(S, faces) ==
    LET P == Set(S)
        T == {x \in SUBSET P : Cardinality(x) = 3}
        tri(x) == LET a == CHOOSE a \in x : TRUE
                      b == CHOOSE b \in x \ {a} : TRUE
                      c == CHOOSE c \in x \ {a, b} : TRUE
                  IN Ccw(a, b, c)
        flat(x) == LET t == tri(x) IN Cross(t[1], t[2], t[3]) = 0
        alone(x) == LET t == tri(x) IN \A p \in P \ x : InCircle(t[1], t[2], t[3], p) < 0
        free(x) == LET t == tri(x) IN \A p \in P \ x : InCircle(t[1], t[2], t[3], p) <= 0
        fair(x) == LET t == tri(x) IN Fair(t[1], t[2], t[3])
    IN /\ \A x \in faces : Cardinality(x) = 3 => x \in T /\ ~flat(x) /\ free(x)
       /\ \A x \in T : (~flat(x) /\ fair(x) /\ alone(x)) => x \in faces

(***************************************************************************)
(* Networks of polylines with axis-parallel segments: the nodes of the 1D  *)
(* mesh lie at the ends, at the distance off before and after every fixed  *)
(* chainage, and at equal distances, at most step, in between.             *)
(***************************************************************************)
Seg(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
Chain(t) == TLCEval([i \in DOMAIN t |-> SumTo([j \in 1..(i - 1) |-> Seg(t[j], t[j + 1])], i - 1)])
PointAt(t, c) == LET ch == Chain(t)
                     i == CHOOSE i \in 1..(Len(t) - 1) : ch[i] <= c /\ c <= ch[i + 1]
                     d == c - ch[i]
                 IN <<t[i][1] + d * Sgn(t[i + 1][1] - t[i][1]), t[i][2] + d * Sgn(t[i + 1][2] - t[i][2])>>
\* two fixed points too close together share one node halfway
RECURSIVE Fixed(_, _, _, _, _, _)
Fixed(F, off, face, len, C, prev) ==     \* prev: last chainage, and whether it belongs to a fixed point
    IF F = <<>> THEN C ELSE
    LET before == F[1] - off
        after == F[1] + off
        put == before - prev[1] >= face /\ before > 0
        mid == (before + prev[1]) \div 2
        C1 == IF put THEN C \cup {before} ELSE IF prev[2] THEN (C \ {prev[1]}) \cup {mid} ELSE C
        p1 == IF put THEN <<before, TRUE>> ELSE IF prev[2] THEN <<mid, TRUE>> ELSE prev
        put2 == after - p1[1] >= face /\ after < len
    IN Fixed(Tail(F), off, face, len, IF put2 THEN C1 \cup {after} ELSE C1, IF put2 THEN <<after, TRUE>> ELSE p1)
Chainages(t, F, off, face, step) ==
    LET len == Chain(t)[Len(t)]
        base == Fixed(F, off, face, len, {0, len}, <<0, FALSE>>)
        next(c) == CHOOSE d \in base : d > c /\ \A x \in base : x > c => d <= x
        between(c) == LET g == next(c) - c
                          k == Ceil(g, step)
                      IN IF g < step THEN {} ELSE {c + (j * g) \div k : j \in 1..(k - 1)}
    IN base \cup (IF step = 0 THEN {} ELSE UNION {between(c) : c \in base \ {len}})
LineLinks(t, F, off, face, step) == LET C == Chainages(t, F, off, face, step)
                                  len == Chain(t)[Len(t)]
                                  next(c) == CHOOSE d \in C : d > c /\ \A x \in C : x > c => d <= x
                              IN {{PointAt(t, c), PointAt(t, next(c))} : c \in C \ {len}}
NetworkLinks(L, F, off, face, step) == UNION {LineLinks(L[i], IF F = <<>> THEN <<>> ELSE F[i], off, face, step) : i \in DOMAIN L}
=============================================================================
