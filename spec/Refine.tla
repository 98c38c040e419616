------------------------------ MODULE Refine ------------------------------
(***************************************************************************)
(* Refinement of a 2D mesh.  A mesh is [n |-> nodes, e |-> edges, f |->    *)
(* faces]; M is the mesh before, N the mesh after; e a refinement with its *)
(* parameters.                                                             *)
(***************************************************************************)
EXTENDS Plane

Set(s) == {s[i] : i \in DOMAIN s}
Poly(M, f) == TLCEval([i \in DOMAIN f |-> M.n[f[i]]])
Sane(M) == /\ \A i \in DOMAIN M.n : M.n[i] = <<>> \/ (Abs(M.n[i][1]) < 10000 /\ Abs(M.n[i][2]) < 10000)
           /\ \A f \in DOMAIN M.f : \A i \in DOMAIN M.f[f] : M.f[f][i] \in DOMAIN M.n /\ M.n[M.f[f][i]] # <<>>
           /\ \A e \in DOMAIN M.e : M.e[e] = <<0, 0>> \/ \A i \in 1..2 : M.e[e][i] \in DOMAIN M.n /\ M.n[M.e[e][i]] # <<>>
Used(M) == {e \in DOMAIN M.e : M.e[e] # <<0, 0>>}
Ring(M, k) == Poly(M, M.f[k])

\* every new face lies in one old face, and together they cover it
Box(P) == [lo |-> [c \in 1..2 |-> CHOOSE x \in {P[i][c] : i \in DOMAIN P} : \A i \in DOMAIN P : x <= P[i][c]],
           hi |-> [c \in 1..2 |-> CHOOSE x \in {P[i][c] : i \in DOMAIN P} : \A i \in DOMAIN P : x >= P[i][c]]]
InBox(p, B) == B.lo[1] <= p[1] /\ p[1] <= B.hi[1] /\ B.lo[2] <= p[2] /\ p[2] <= B.hi[2]
Parents(P, B, Q, f) == {o \in DOMAIN P : \A i \in DOMAIN Q[f] : InBox(Q[f][i], B[o]) /\ Where(Q[f][i], P[o]) # "out"}
Tiles(M, N) ==
    LET P == TLCEval([o \in DOMAIN M.f |-> Ring(M, o)])
        B == TLCEval([o \in DOMAIN M.f |-> Box(P[o])])
        Q == TLCEval([f \in DOMAIN N.f |-> Ring(N, f)])
        par == TLCEval([f \in DOMAIN N.f |-> Parents(P, B, Q, f)])
        A == TLCEval([f \in DOMAIN N.f |-> Area2(Q[f])])
    IN /\ \A f \in DOMAIN N.f : A[f] > 0 /\ Cardinality(par[f]) = 1
       /\ \A o \in DOMAIN M.f : SumTo([f \in DOMAIN N.f |-> IF o \in par[f] THEN A[f] ELSE 0], Len(N.f)) = Area2(P[o])
\* nodes keep their index and place
KeepsNodes(M, N) == /\ Len(N.n) >= Len(M.n) /\ \A i \in DOMAIN M.n : N.n[i] = M.n[i]
\* no two nodes in one place; no node inside an edge
Conforming(N) ==
    LET on == UNION {{N.e[e][1], N.e[e][2]} : e \in Used(N)}
        at == {N.n[i] : i \in on}
    IN /\ Cardinality(at) = Cardinality(on)
       /\ \A e \in Used(N) :
            LET a == N.n[N.e[e][1]]
                b == N.n[N.e[e][2]]
                x0 == Min2(a[1], b[1])
                x1 == Max2(a[1], b[1])
            IN \A p \in at : p[1] < x0 \/ p[1] > x1 \/ ~OnSegment(p, a, b) \/ p = a \/ p = b
Corners(P) == {i \in DOMAIN P : LET n == Len(P) IN Cross(P[IF i = 1 THEN n ELSE i - 1], P[i], P[Nxt(i, n)]) # 0}
\* all hanging nodes are connected: every face has a corner at every node
NoHanging(N) == \A f \in DOMAIN N.f : LET P == Ring(N, f) IN Corners(P) = DOMAIN P
\* the faces of M that are still faces of N
Kept(M, N) == LET there == {Set(N.f[f]) : f \in DOMAIN N.f} IN {o \in DOMAIN M.f : Set(M.f[o]) \in there}
Neighbour(M, o, p) == Cardinality(Set(M.f[o]) \cap Set(M.f[p])) >= 1
Children(M, N, o) == LET P == Ring(M, o)
                         B == Box(P)
                     IN {f \in DOMAIN N.f : \A i \in DOMAIN N.f[f] : InBox(N.n[N.f[f][i]], B) /\ Where(N.n[N.f[f][i]], P) # "out"}
Long(M, o, size) == LET P == Ring(M, o) IN \A i \in DOMAIN P : Dist2(P[i], P[Nxt(i, Len(P))]) > size * size
Refinement(e) == /\ e.rc = 0 /\ Sane(e.N) /\ KeepsNodes(e.M, e.N) /\ Tiles(e.M, e.N) /\ Conforming(e.N)

\* polygon: faces deep inside are refined, faces well outside stay
In(M, i, P) == P = <<>> \/ Where(M.n[i], P) = "in"
PolyOk(e) ==
    LET M == e.M
        in == {i \in UNION {Set(M.f[o]) : o \in DOMAIN M.f} : In(M, i, e.P)}
        whole == {o \in DOMAIN M.f : Set(M.f[o]) \subseteq in}
        deep == in \ UNION {Set(M.f[o]) : o \in DOMAIN M.f \ whole}
        cut(o) == e.P # <<>> /\ \E i \in DOMAIN M.f[o], k \in DOMAIN e.P : LET R == Ring(M, o) IN Meet(R[i], R[Nxt(i, Len(R))], e.P[k], e.P[Nxt(k, Len(e.P))])
        near == {o \in DOMAIN M.f : Set(M.f[o]) \cap in # {} \/ cut(o) \/ (e.P # <<>> /\ Where(e.P[1], Ring(M, o)) # "out")}
        around == UNION {Set(M.f[p]) : p \in near}
    IN /\ Refinement(e)
       /\ \A o \in DOMAIN M.f : (Set(M.f[o]) \cap deep # {} /\ Long(M, o, e.size)) => Cardinality(Children(M, e.N, o)) >= 4
       /\ e.it = 2 => \A o \in DOMAIN M.f : (Set(M.f[o]) \subseteq deep /\ Long(M, o, 2 * e.size)) => Cardinality(Children(M, e.N, o)) >= 16
       /\ (\A o \in DOMAIN M.f : Len(M.f[o]) <= 4) => LET kept == Kept(M, e.N) IN \A o \in DOMAIN M.f : Set(M.f[o]) \cap around = {} => o \in kept

\* samples naming refinement levels: faces with a sample are refined, faces far from all samples stay
SamOk(e) ==
    LET M == e.M
        hit == {o \in DOMAIN M.f : \E k \in DOMAIN e.S : Where(e.S[k], Ring(M, o)) # "out"}
        sure == {o \in hit : \E k \in DOMAIN e.S : e.S[k][3] > 1 /\ Where(e.S[k], Ring(M, o)) = "in"}
        near == {o \in DOMAIN M.f : \E p \in hit : Neighbour(M, o, p)}
        beside(o, p) == o # p /\ Cardinality(Set(M.f[o]) \cap Set(M.f[p])) = 2
        RECURSIVE wave(_, _)                   \* smoothing carries the refinement over the sides to the next faces
        wave(S, k) == IF k = 0 THEN S ELSE wave(S \cup {o \in DOMAIN M.f : Long(M, o, e.size) /\ \E p \in S : beside(o, p)}, k - 1)
    IN /\ Refinement(e)
       /\ \A o \in wave({p \in sure : Long(M, p, e.size)}, e.sm) : Cardinality(Children(M, e.N, o)) >= 4
       /\ \A o \in sure : Long(M, o, e.size) => Cardinality(Children(M, e.N, o)) >= 4
       /\ (e.sm = 0 /\ e.it = 1 /\ \A o \in DOMAIN M.f : Len(M.f[o]) <= 4) => LET kept == Kept(M, e.N) IN \A o \in DOMAIN M.f \ near : o \in kept

\* splitting a row at an edge: the edge is cut at its middle, every quadrilateral of the row at its two sides
SplitOk(e) ==
    LET M == e.M
        quads == {o \in DOMAIN M.f : Len(M.f[o]) = 4}
        opp(o, x) == Set(M.f[o]) \ x                       \* the edge opposite x in quadrilateral o
        RECURSIVE reach(_)
        reach(S) == LET T == S \cup UNION {{opp(o, x) : x \in {y \in S : y \subseteq Set(M.f[o]) /\ \E i \in 1..4 : {M.f[o][i], M.f[o][Nxt(i, 4)]} = y}} : o \in quads}
                    IN IF T = S THEN S ELSE reach(T)
        row == reach({{e.a, e.b}})
        side(o, y) == \E i \in DOMAIN M.f[o] : {M.f[o][i], M.f[o][Nxt(i, Len(M.f[o]))]} = y
        mid(x) == LET p == CHOOSE p \in x : TRUE
                      q == CHOOSE q \in x : q # p
                  IN <<(M.n[p][1] + M.n[q][1]) \div 2, (M.n[p][2] + M.n[q][2]) \div 2>>
    IN /\ Refinement(e)
       /\ Cardinality(row) > 1 => /\ Len(e.N.n) <= Len(M.n) + Cardinality(row)
                                  /\ \A x \in {y \in row : \A o \in DOMAIN M.f : y \subseteq Set(M.f[o]) => o \in quads} : mid(x) \in Set(e.N.n) /\ \A y \in Used(e.N) : Set(e.N.e[y]) # x
                                  /\ \A o \in quads : LET mine == {y \in row : side(o, y)}
                                                            cut == {y \in mine : \A p \in DOMAIN M.f : side(p, y) => p \in quads}
                                                        IN Cardinality(mine) = 2 =>
                                                            Cardinality(Children(M, e.N, o)) = (IF cut = {} THEN 1 ELSE IF cut = mine THEN 2 ELSE 3)

\* Casulli refinement of a mesh of quadrilaterals: covers what the mesh covered; nodes outside the polygon stay
Covers(M) == SumTo([f \in DOMAIN M.f |-> Area2(Ring(M, f))], Len(M.f))
CasulliOk(e) ==
    LET M == e.M
        N == e.N
        in == {i \in UNION {Set(M.f[o]) : o \in DOMAIN M.f} : In(M, i, e.P)}
    IN /\ e.rc = 0 /\ Sane(N)
       /\ Covers(M) = Covers(N)
       /\ \A f \in DOMAIN N.f : Area2(Ring(N, f)) > 0
       /\ Conforming([N EXCEPT !.e = SelectSeq(@, LAMBDA x : x # <<0, 0>> /\ \E f \in DOMAIN N.f : Set(x) \subseteq Set(N.f[f]))])
       /\ (\E i \in DOMAIN M.n : M.n[i] # <<>> /\ e.P # <<>> /\ Where(M.n[i], e.P) = "on") \/
          /\ \A i \in DOMAIN M.n : (i \notin in /\ M.n[i] # <<>>) => M.n[i] \in Set(N.n)
          /\ \A o \in DOMAIN M.f : (Set(M.f[o]) \cap in = {}) => \E f \in DOMAIN N.f : Set(Ring(N, f)) = Set(Ring(M, o))
          /\ in # {} => Len(N.f) > Len(M.f)
=============================================================================
