----------------------------- MODULE MeshTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded histories on a 2D mesh (harness/fam_mesh.py)    *)
(* with the mesh specification.  The state is the mesh; every event must   *)
(* be a step of the specification from the mesh observed before to the     *)
(* mesh observed after, with the answer the specification allows.          *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur

Set(s) == {s[i] : i \in DOMAIN s}
Double(p) == <<2 * p[1], 2 * p[2]>>
OneOff(s) == Cardinality(Set(s)) = Len(s)

---------------------------------------------------------------------------
\* edits: is e.m what the call makes of cur?
EdgeCentre2(M, e) == <<M.n[M.e[e][1]][1] + M.n[M.e[e][2]][1], M.n[M.e[e][1]][2] + M.n[M.e[e][2]][2]>>   \* doubled units
NearestEdges(M, p2) == {e \in Edges(M) : \A f \in Edges(M) : Dist2(EdgeCentre2(M, e), p2) <= Dist2(EdgeCentre2(M, f), p2)}

EdgeXY(M, e) ==
    LET at(K, p) == {i \in Nodes(K) : K.n[i] = p}
        i == IF at(M, e.p) = {} THEN Len(M.n) + 1 ELSE e.out[1]
        A == IF at(M, e.p) = {} THEN InsertNode(M, e.p) ELSE M
        j == IF at(A, e.q) = {} THEN Len(A.n) + 1 ELSE e.out[2]
        B == IF at(A, e.q) = {} THEN InsertNode(A, e.q) ELSE A
    IN /\ e.out[1] = i /\ e.out[2] = j
       /\ i \in DOMAIN B.n /\ j \in DOMAIN B.n /\ B.n[i] = e.p /\ B.n[j] = e.q
       /\ IF Joining(B, i, j) # {} THEN e.out[3] = 0 /\ Same(e.m, B)
          ELSE e.out[3] = Len(B.e) + 1 /\ Same(e.m, InsertEdge(B, i, j))

\* moving a node takes its surroundings along: in the direction of the displacement, less with the distance, and nothing
\* beyond the length of the displacement
MovedWell(M, e) ==
    LET d == <<e.p[1] - M.n[e.a][1], e.p[2] - M.n[e.a][2]>>
        R == Dist2(e.p, M.n[e.a])
        r(i) == Dist2(M.n[i], M.n[e.a])
        q(i) == <<e.f[i][1] - e.sc * M.n[i][1], e.f[i][2] - e.sc * M.n[i][2]>>       \* displacement of node i, fixed point
        proj(i) == q(i)[1] * d[1] + q(i)[2] * d[2]                                  \* = sc * R * factor
        tol == e.sc * 2
    IN /\ Len(e.f) = Len(M.n) /\ e.e = M.e
       /\ \A i \in DOMAIN M.n : (M.n[i] = Null) <=> (e.f[i] = <<>>)
       /\ \A i \in Nodes(M) :
            /\ r(i) >= R => q(i) = <<0, 0>>
            /\ r(i) = 0 => q(i) = <<e.sc * d[1], e.sc * d[2]>>
            /\ Abs(q(i)[1] * d[2] - q(i)[2] * d[1]) <= Abs(d[1]) + Abs(d[2])         \* along d, up to rounding
            /\ r(i) < R => /\ proj(i) >= - tol /\ proj(i) <= e.sc * R + tol
                           /\ 4 * r(i) <= R => 2 * proj(i) >= e.sc * R - 2 * tol      \* at least half within half the length
                           /\ 4 * r(i) >= R => 2 * proj(i) <= e.sc * R + 2 * tol
       /\ \A i, j \in {k \in Nodes(M) : r(k) < R} : r(i) < r(j) => proj(i) >= proj(j) - tol

EditOk(M, e) ==
    CASE e.k = "set" -> e.rc = 0 /\ e.m = Compact(e.a)
      [] e.k = "adm" -> e.rc = 0 /\ Same(e.m, Clean(M))
      [] e.k = "node" -> e.rc = 0 /\ e.out = Len(M.n) + 1 /\ Same(e.m, InsertNode(M, e.p)) /\ e.m.n[e.out] = e.p
      [] e.k = "edge" -> e.rc = 0 /\ IF Joining(M, e.a, e.b) # {} THEN e.out = 0 /\ Same(e.m, M)
                                     ELSE e.out = Len(M.e) + 1 /\ Same(e.m, InsertEdge(M, e.a, e.b))
      [] e.k = "edgexy" -> e.rc = 0 /\ EdgeXY(M, e)
      [] e.k = "delnode" -> e.rc = 0 /\ Same(e.m, DeleteNode(M, e.a)) /\ e.m.n[e.a] = Null
      [] e.k = "deledge" -> e.rc = 0 /\ Same(e.m, DeleteEdges(M, {e.a}))
      [] e.k = "deledgexy" -> e.rc = 0 /\ \E x \in NearestEdges(M, Double(e.p)) : Same(e.m, DeleteEdges(M, {x}))
      [] e.k = "merge2" -> e.rc = 0 /\ Same(e.m, MergeTwo(M, e.a, e.b)) /\ (e.a # e.b => e.m.n[e.a] = Null)
      [] e.k = "hanging" -> e.rc = 0 /\ OneOff(e.out) /\ Set(e.out) = Hanging(M) /\ e.tail = 1 /\ Same(e.m, M)
      [] e.k = "delhang" -> e.rc = 0 /\ Same(e.m, DeleteEdges(M, Hanging(M)))
      [] e.k = "translate" -> e.rc = 0 /\ Same(e.m, Translate(M, e.d[1], e.d[2]))
      [] e.k = "turn" -> e.rc = 0 /\ Same(e.m, Turn(M, e.c, e.q))
      [] e.k = "add" -> e.rc = 0 /\ Same(e.m, Join(M, e.a))
      [] e.k = "shift" -> e.rc = 0 /\ Same(e.m, MoveNode(M, e.a, e.p))
      [] e.k = "move" -> e.rc = 0 /\ MovedWell(M, e)
      [] OTHER -> TRUE

---------------------------------------------------------------------------
\* connectivity
FaceRot(f) == Rotated(f)
GetOk(M, e) ==
    LET G == [n |-> e.N, e |-> [i \in DOMAIN e.E |-> IF e.E[i] = <<0, 0>> THEN Null ELSE e.E[i]]]
        nf == Len(e.F)
        facesOf == TLCEval([x \in DOMAIN G.e |-> {f \in 1..nf : x \in Set(e.FE[f])}])
        cells == Cells(M)
        got == {FaceRot(e.F[f]) : f \in 1..nf}
        \* a cell that touches one other cell along two edges (a node on a side) may be left out
        excused(c) == \E f \in 1..nf : Cardinality(EdgesOf(M, c) \cap Set(e.FE[f])) >= 2
    IN /\ e.rc = 0
       /\ G = M
       /\ WellFormed(G)
       /\ e.c[1] = Cardinality(Nodes(G)) /\ e.c[2] = Cardinality(Edges(G))
       /\ e.c[3] = SumTo([f \in 1..nf |-> Len(e.F[f])], nf)
       /\ \A f \in 1..nf : /\ Len(e.FE[f]) = Len(e.F[f])
                           /\ \A i \in DOMAIN e.F[f] : /\ e.FE[f][i] \in Edges(G)
                                                       /\ Ends(G, e.FE[f][i]) = {e.F[f][i], e.F[f][Nxt(i, Len(e.F[f]))]}
       /\ \A x \in DOMAIN G.e : /\ Set(e.EF[x]) \ {0} = facesOf[x]
                                /\ Cardinality(facesOf[x]) = Cardinality({i \in 1..2 : e.EF[x][i] # 0})
                                /\ (e.EF[x][1] = 0 => e.EF[x][2] = 0)
       /\ \A x \in Edges(G) : e.EX[x] = EdgeCentre2(G, x)
       /\ Cardinality(got) = nf
       /\ Planar(M) => /\ got \subseteq LooseCells(M)
                       /\ \A c \in cells : c \in got \/ Area2(Poly(M, c)) = 0 \/ excused(c)
                       /\ \A f \in 1..nf : LET P == Poly(M, e.F[f]) A == Area2(P) c == Centroid6(P)
                                           IN A # 0 => /\ Abs(3 * A * e.FX[f][1] - 64 * c[1]) <= 3 * A
                                                       /\ Abs(3 * A * e.FX[f][2] - 64 * c[2]) <= 3 * A

\* the faces the specification is sure of, as the library may leave out some cells (see above)
SureCells(M) == {c \in Cells(M) : Area2(Poly(M, c)) # 0}
Simple(M) == \* no two cells share more than one edge: then the faces are exactly the cells
    LET C == SureCells(M) IN /\ C = LooseCells(M)
                             /\ \A c, d \in C : c # d => Cardinality(EdgesOf(M, c) \cap EdgesOf(M, d)) <= 1

BoundEdges(M) == LET C == SureCells(M) IN {x \in Edges(M) : Cardinality({c \in C : x \in EdgesOf(M, c)}) = 1}
\* the boundary polygons walk over every boundary edge exactly once, and are closed
BoundOk(M, e) ==
    (Planar(M) /\ Simple(M)) =>
        LET at(p) == {i \in Nodes(M) : M.n[i] = p}
            steps == UNION {{<<k, i>> : i \in 1..(Len(e.P[k]) - 1)} : k \in DOMAIN e.P}
            ed(s) == LET a == at(e.P[s[1]][s[2]]) b == at(e.P[s[1]][s[2] + 1])
                     IN {x \in Edges(M) : \E i \in a, j \in b : Ends(M, x) = {i, j}}
            B == BoundEdges(M)
        IN /\ e.rc = 0
           /\ \A k \in DOMAIN e.P : Len(e.P[k]) = 0 \/ (Len(e.P[k]) >= 4 /\ e.P[k][1] = e.P[k][Len(e.P[k])])
           /\ \A s \in steps : ed(s) \cap B # {}
           /\ \A x \in B : Cardinality({s \in steps : x \in ed(s)}) = 1
           /\ Cardinality(steps) = Cardinality(B)
FacePolysOk(M, e) ==
    (Planar(M) /\ Simple(M)) =>
        LET want == {c \in SureCells(M) : Len(c) = e.q}
            ring(P) == [i \in 1..(Len(P) - 1) |-> P[i]]
            turns(Q) == {[i \in DOMAIN Q |-> Q[((k + i - 1) % Len(Q)) + 1]] : k \in DOMAIN Q}
            P == IF e.n = 0 THEN <<>> ELSE e.P
        IN /\ e.rc = 0
           /\ Len(P) = Cardinality(want)
           /\ e.n = IF want = {} THEN 0 ELSE Cardinality(want) * (e.q + 2) - 1
           /\ \A c \in want : \E k \in DOMAIN P : Len(P[k]) = e.q + 1 /\ P[k][1] = P[k][e.q + 1] /\ Poly(M, c) \in turns(ring(P[k]))

---------------------------------------------------------------------------
\* selection with polygons (rings in doubled units, with odd coordinates)
Loc(M, i, R) == WhereIn(Double(M.n[i]), R)
CrossedBy(M, c, R) == \E r \in DOMAIN R, i \in DOMAIN c : \E k \in DOMAIN R[r] :
    ProperCross(Double(M.n[c[i]]), Double(M.n[c[Nxt(i, Len(c))]]), R[r][k], R[r][Nxt(k, Len(R[r]))])
\* a ring passes exactly through a node, or has a corner on an edge: left to the library
Touches(M, R) == \E r \in DOMAIN R :
                    \/ \E i \in Nodes(M) : OnBoundary(Double(M.n[i]), R[r])
                    \/ \E x \in Edges(M), k \in DOMAIN R[r] : OnSegment(R[r][k], Double(M.n[M.e[x][1]]), Double(M.n[M.e[x][2]]))
CutOk(M, e) ==
    (Planar(M) /\ Simple(M) /\ ~Touches(M, e.P)) =>
        LET C == SureCells(M)
            whole(c) == \A i \in DOMAIN c : Loc(M, c[i], e.P) = "in"
            crossed(c) == CrossedBy(M, c, e.P)
            sel(c) == IF e.opt = 0 THEN whole(c) /\ ~crossed(c) ELSE whole(c) \/ crossed(c)
            kept == {c \in C : IF e.inv = 0 THEN ~sel(c) ELSE sel(c)}
            keep == UNION {EdgesOf(M, c) : c \in kept}
            loose == Edges(M) \ UNION {EdgesOf(M, c) : c \in C}           \* on no face: left to the library
            A == [e.m EXCEPT !.e = [x \in DOMAIN e.m.e |-> IF x \in loose THEN Null ELSE e.m.e[x]]]
        IN IF e.rc # 0 THEN C = {} /\ e.m = M         \* a mesh without faces may be refused
           ELSE
           /\ Len(e.m.n) = Len(M.n) /\ Len(e.m.e) = Len(M.e)
           /\ \A x \in DOMAIN M.e : x \notin loose => e.m.e[x] = IF x \in keep THEN M.e[x] ELSE Null
           /\ \A x \in loose : e.m.e[x] \in {M.e[x], Null}
           /\ \A i \in Connected(e.m) : e.m.n[i] = M.n[i]
CutFacesOk(M, e) ==
    (Planar(M) /\ Simple(M) /\ ~Touches(M, e.P)) =>
        LET C == SureCells(M)
            clear(c) == ~CrossedBy(M, c, e.P) /\ ~(\E r \in DOMAIN e.P : \E k \in DOMAIN e.P[r] : Where(e.P[r][k], [i \in DOMAIN c |-> Double(M.n[c[i]])]) # "out")
            in(c) == Loc(M, c[1], e.P) = "in"
            sel(c) == IF e.inv = 0 THEN in(c) ELSE ~in(c)
            yes(c) == clear(c) /\ sel(c)                                   \* the whole face is selected
            no(c) == clear(c) /\ ~sel(c)
            cof == TLCEval([x \in Edges(M) |-> {c \in C : x \in EdgesOf(M, c)}])
            mid(x) == LET w == WhereIn(EdgeCentre2(M, x), e.P) IN IF w = "on" THEN "?" ELSE IF (w = "in") = (e.inv = 0) THEN "y" ELSE "n"
            must(x) == IF cof[x] = {} THEN mid(x) = "y" ELSE \A c \in cof[x] : yes(c)
            mustnot(x) == IF cof[x] = {} THEN mid(x) = "n" ELSE \E c \in cof[x] : no(c)
        IN /\ e.rc = 0
           /\ Len(e.m.n) = Len(M.n) /\ Len(e.m.e) = Len(M.e)
           /\ \A x \in DOMAIN M.e : e.m.e[x] \in {M.e[x], Null}
           /\ \A x \in Edges(M) : /\ must(x) => e.m.e[x] = Null
                                  /\ mustnot(x) => e.m.e[x] = M.e[x]
           /\ \A i \in Connected(e.m) : e.m.n[i] = M.n[i]
NodesInOk(M, e) ==
    LET w == TLCEval([i \in Nodes(M) |-> Loc(M, i, e.P)])
        yes == {i \in Nodes(M) : w[i] = IF e.inside = 1 THEN "in" ELSE "out"}
        on == {i \in Nodes(M) : w[i] = "on"}
        got == Set(e.out) \cap Nodes(M)
    IN /\ e.rc = 0 /\ e.tail = 1 /\ OneOff(e.out) /\ Same(e.m, M)
       /\ yes \subseteq got /\ got \subseteq (yes \cup on)
       /\ (Set(e.out) \subseteq Nodes(M))
PointsOk(M, e) ==
    /\ e.rc = 0 /\ Len(e.out) = Len(e.Q)
    /\ \A i \in DOMAIN e.Q : LET w == WhereIn(e.Q[i], e.P) IN e.out[i] \in {0, 1} /\ (w = "in" => e.out[i] = 1) /\ (w = "out" => e.out[i] = 0)
SelectOk(M, e) ==
    CASE e.k = "cut" -> CutOk(M, e)
      [] e.k = "cutfaces" -> CutFacesOk(M, e)
      [] e.k = "nodesin" -> NodesInOk(M, e)
      [] e.k = "points" -> PointsOk(M, e)
      [] OTHER -> TRUE

---------------------------------------------------------------------------
\* lookups (points, boxes and squared radii in doubled units)
InBox(p, b) == b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
StrictBox(p, b) == b[1] < p[1] /\ p[1] < b[3] /\ b[2] < p[2] /\ p[2] < b[4]
\* x is the answer to "nearest of the places S to p" when the places on the rim of the box may or may not count
NearestOk(S, at(_), p, box, rc, x) ==
    LET sure == {i \in S : StrictBox(at(i), box)}
        may == {i \in S : InBox(at(i), box)}
    IN IF rc # 0 THEN sure = {}
       ELSE x \in may /\ \A i \in sure : Dist2(at(x), p) <= Dist2(at(i), p)
NearOk(M, e) ==
    LET d(i) == Dist2(Double(M.n[i]), e.p)
        near == {i \in Nodes(M) : d(i) < e.r2}
        rim == {i \in Nodes(M) : d(i) = e.r2}
        N == Nodes(M)
        C == SureCells(M)
        square(c) == Len(c) = 4 /\ LET P == Poly(M, c) IN \A i \in 1..4 : P[i][1] = P[Nxt(i, 4)][1] \/ P[i][2] = P[Nxt(i, 4)][2]
    IN /\ Same(e.m, M)
       /\ N = {} \/ /\ e.node[1] = 0
                    /\ IF near = {} THEN e.node[2] = 0 \/ e.node[2] \in rim
                       ELSE e.node[2] \in near /\ \A i \in near : d(e.node[2]) <= d(i)
                    /\ e.node[2] # 0 => e.closest[1] = 0 /\ e.closest[2] = Double(M.n[e.node[2]])
       /\ (Edges(M) = {} \/ (e.edge[1] = 0 /\ e.edge[2] \in NearestEdges(M, e.p)))
       /\ \A k \in DOMAIN e.locs :
            LET q == e.locs[k]
            IN CASE q[4] = 0 -> NearestOk(N, LAMBDA i : Double(M.n[i]), e.p, q[3], q[1], q[2])
                 [] q[4] = 1 -> NearestOk(Edges(M), LAMBDA x : EdgeCentre2(M, x), e.p, q[3], q[1], q[2])
                 [] OTHER -> TRUE

---------------------------------------------------------------------------
Labels(M, e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF EditOk(M, e) THEN {} ELSE {"edit"})
    \cup (IF e.k = "get" /\ ~GetOk(M, e) THEN {"connectivity"} ELSE {})
    \cup (IF e.k = "bound" /\ ~BoundOk(M, e) THEN {"boundary"} ELSE {})
    \cup (IF e.k = "facepolys" /\ ~FacePolysOk(M, e) THEN {"boundary"} ELSE {})
    \cup (IF SelectOk(M, e) THEN {} ELSE {"select"})
    \cup (IF e.k = "near" /\ ~NearOk(M, e) THEN {"lookup"} ELSE {})

Init == l = 1 /\ cur = Empty
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(cur, e)
       IN /\ \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k)
          /\ cur' = IF "m" \in DOMAIN e THEN e.m ELSE IF e.k = "reset" THEN Empty ELSE cur
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_<<l, cur>>
=============================================================================
