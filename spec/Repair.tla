------------------------------- MODULE Repair -------------------------------
(***************************************************************************)
(* Repairing and improving a 2D mesh.  M is the mesh before, N the mesh    *)
(* after; missing nodes are <<>>, missing edges <<0, 0>>.                  *)
(***************************************************************************)
EXTENDS Refine

Ms == INSTANCE Measure

Sides(M, f) == LET k == Len(M.f[f]) IN {{M.f[f][i], M.f[f][Nxt(i, k)]} : i \in 1..k}
AllSides(M) == TLCEval([f \in DOMAIN M.f |-> Sides(M, f)])
Links(M) == {Set(M.e[x]) : x \in Used(M)}
\* the links on the border of the mesh
Border(M) == LET S == AllSides(M) IN {y \in Links(M) : Cardinality({f \in DOMAIN M.f : y \in S[f]}) = 1}
EachOnce(M) == Cardinality(Links(M)) = Cardinality(Used(M)) /\ \A x \in Used(M) : M.e[x][1] # M.e[x][2]
Positive(M) == \A f \in DOMAIN M.f : Area2(Ring(M, f)) > 0

\* ------------------------------------------------ regions without a connection
RegionsOk(e) ==
    LET M == e.M
        S == AllSides(M)
        next == TLCEval([f \in DOMAIN M.f |-> {g \in DOMAIN M.f : S[f] \cap S[g] # {}}])
        RECURSIVE grow(_)
        grow(F) == LET G == F \cup UNION {next[f] : f \in F} IN IF G = F THEN F ELSE grow(G)
        regions == {grow({f}) : f \in DOMAIN M.f}
        largest == {R \in regions : \A Q \in regions : Cardinality(Q) <= Cardinality(R)}
        after(R) == LET gone == UNION {S[f] : f \in DOMAIN M.f \ R}
                        E == TLCEval([x \in DOMAIN M.e |-> IF Set(M.e[x]) \in gone THEN <<0, 0>> ELSE M.e[x]])
                        on == UNION {Set(E[x]) : x \in DOMAIN E}
                    IN e.N.e = E /\ e.N.n = [i \in DOMAIN M.n |-> IF i \in on THEN M.n[i] ELSE <<>>]
    IN /\ e.rc = 0
       /\ IF Cardinality(regions) = 1 THEN e.N = M ELSE \E R \in largest : after(R)

\* ------------------------------------------------ merging nodes
MergeOk(e) ==
    LET M == e.M
        N == e.N
        in == {i \in DOMAIN M.n : M.n[i] # <<>> /\ In(M, i, e.P)}
        near == TLCEval([i \in DOMAIN M.n |-> IF i \notin in THEN {} ELSE {j \in in \ {i} : Dist2(M.n[i], M.n[j]) <= e.d2}])
        clear == /\ e.P # <<>> => \A i \in DOMAIN M.n : Where(M.n[i], e.P) # "on"
                 /\ \A i \in DOMAIN M.n : Cardinality(near[i]) <= 1
        gone == {i \in DOMAIN M.n : M.n[i] # <<>> /\ N.n[i] = <<>>}
        to == TLCEval([i \in DOMAIN M.n |-> IF i \in gone THEN CHOOSE j \in near[i] : TRUE ELSE i])
        image(x) == {to[M.e[x][1]], to[M.e[x][2]]}
        there == {x \in DOMAIN M.e : N.e[x] # <<0, 0>>}
    IN clear =>
       /\ e.rc = 0
       /\ Len(N.n) = Len(M.n) /\ Len(N.e) = Len(M.e)
       /\ \A i \in gone : near[i] # {}
       /\ \A i \in DOMAIN M.n : near[i] # {} => Cardinality(({i} \cup near[i]) \cap gone) = 1
       /\ \A i \in DOMAIN M.n \ gone : N.n[i] = M.n[i]
       /\ \A x \in there : Set(N.e[x]) = image(x)
       /\ Links(N) = {image(x) : x \in DOMAIN M.e} /\ EachOnce(N)

\* ------------------------------------------------ flipping edges of triangles
Degree(N, i) == Cardinality({x \in Used(N) : i \in Set(N.e[x])})
Improvable(N) ==
    LET S == AllSides(N)
        outer == UNION Border(N)
        fo == TLCEval([x \in DOMAIN N.e |-> {f \in DOMAIN N.f : Set(N.e[x]) \in S[f]}])
        off(i) == Degree(N, i) - 6
        sq(a) == a * a
    IN \E x \in Used(N) :
        /\ Cardinality(fo[x]) = 2
        /\ LET far == UNION {Set(N.f[f]) : f \in fo[x]} \ Set(N.e[x])
           IN /\ (far \cup Set(N.e[x])) \cap outer = {} /\ Cardinality(far) = 2
              /\ LET p == CHOOSE p \in far : TRUE
                     q == CHOOSE q \in far : q # p
                     a == N.e[x][1]
                     b == N.e[x][2]
                 IN /\ ProperCross(N.n[a], N.n[b], N.n[p], N.n[q])
                    /\ sq(off(a) - 1) + sq(off(b) - 1) + sq(off(p) + 1) + sq(off(q) + 1) < sq(off(a)) + sq(off(b)) + sq(off(p)) + sq(off(q))
\* faces are cut into triangles at one of their corners: that needs them to be convex
Convex(M) == \A f \in DOMAIN M.f : LET P == Ring(M, f)
                                      n == Len(P)
                                  IN \A i \in 1..n : Cross(P[i], P[Nxt(i, n)], P[Nxt(Nxt(i, n), n)]) > 0
FlipOk(e) == Convex(e.M) =>
    LET M == e.M
        N == e.N
        all3 == \A f \in DOMAIN N.f : Len(N.f[f]) = 3
    IN /\ e.rc = 0
       /\ N.n = M.n /\ EachOnce(N)
       /\ Border(N) = Border(M) /\ Covers(N) = Covers(M) /\ Positive(N)
       /\ e.tri = 1 => all3
       /\ e.tri = 0 => Len(N.e) = Len(M.e) /\ [k \in 3..6 |-> Cardinality({f \in DOMAIN N.f : Len(N.f[f]) = k})] = [k \in 3..6 |-> Cardinality({f \in DOMAIN M.f : Len(M.f[f]) = k})]
       /\ all3 => ~Improvable(N)

\* ------------------------------------------------ orthogonalisation of a rectangle (N in hundredths, M in quarters; b its sides in hundredths)
OrthoOk(e) ==
    LET M == e.M
        N == e.N
        b == e.b
        was(i) == <<25 * M.n[i][1], 25 * M.n[i][2]>>
        still(i) == Abs(N.n[i][1] - was(i)[1]) <= 1 /\ Abs(N.n[i][2] - was(i)[2]) <= 1
        at(i, c) == was(i)[c] \in {b[c], b[c + 2]}
        same(i, c) == Abs(N.n[i][c] - was(i)[c]) <= 1
        hit == e.P # <<>> /\ \E i \in DOMAIN M.n : Where(M.n[i], e.P) = "on"
    IN /\ e.rc = 0
       /\ N.e = M.e /\ Len(N.n) = Len(M.n)
       /\ \A i \in DOMAIN N.n : N.n[i] # <<>> /\ Abs(N.n[i][1]) < 1000000 /\ Abs(N.n[i][2]) < 1000000
       /\ \A i \in DOMAIN N.n : \A c \in 1..2 : at(i, c) => same(i, c)
       /\ ~hit => \A i \in DOMAIN N.n : ~In(M, i, e.P) => still(i)
       /\ e.even = 1 => \A i \in DOMAIN N.n : still(i)

\* ------------------------------------------------ edges crossed by short links between faces of a mesh of rectangles
SmallOk(e) ==
    LET M == e.M
        N == e.N
        fo == Ms!FacesOf(M)
        A == Ms!Areas(M)
        inner == {x \in DOMAIN M.e : Cardinality(fo[x]) = 2}
        one(x) == CHOOSE f \in fo[x] : TRUE
        two(x) == CHOOSE f \in fo[x] : f # one(x)
        link(x) == Abs(Ms!Twice(M, one(x))[1] - Ms!Twice(M, two(x))[1]) + Abs(Ms!Twice(M, one(x))[2] - Ms!Twice(M, two(x))[2])
        roots(x) == Ms!Root(A[one(x)] \div 2) + Ms!Root(A[two(x)] \div 2)
        sure == {x \in inner : 1000 * link(x) < e.t * roots(x)}
        may == {x \in inner : 1000 * link(x) <= e.t * (roots(x) + 2)}
        gone == DOMAIN M.e \ Used(N)
        on == UNION {Set(N.e[x]) : x \in Used(N)}
    IN /\ e.rc = 0 /\ Len(N.e) = Len(M.e)
       /\ sure \subseteq gone /\ gone \subseteq may
       /\ \A x \in Used(N) : N.e[x] = M.e[x]
       /\ N.n = [i \in DOMAIN M.n |-> IF i \in on THEN M.n[i] ELSE <<>>]

\* ------------------------------------------------ joining meshes that share part of their borders
ConnectOk(e) ==
    LET N == e.N
        old == Set(e.M.n) \cup Set(e.B.n)
    IN /\ e.rc = 0 /\ Sane(N)
       /\ Covers(N) = Covers(e.M) + Covers(e.B) /\ Positive(N)
       /\ EachOnce(N) /\ Conforming(N) /\ NoHanging(N)
       /\ \A i \in DOMAIN N.n : N.n[i] # <<>> => \E p \in old : p = N.n[i] \/ e.r > 2
       /\ old \subseteq Set(N.n) \/ e.r > 1

\* ------------------------------------------------ Casulli de-refinement of a rectangle of parallelograms; D: the centres of the faces announced to go
DerefOk(e) ==
    LET M == e.M
        N == e.N
        mid(f) == LET P == Ring(M, f) IN <<(P[1][1] + P[3][1]) \div 2, (P[1][2] + P[3][2]) \div 2>>
        going == {f \in DOMAIN M.f : mid(f) \in Set(e.D)}
        kept == {Set(Ring(N, f)) : f \in DOMAIN N.f}
    IN /\ e.rc = 0 /\ Sane(N)
       /\ Covers(N) = Covers(M) /\ Positive(N) /\ EachOnce(N) /\ Conforming(N)
       /\ Len(N.f) < Len(M.f)
       /\ Cardinality(going) = Len(e.D)
       /\ \A f \in going : Set(Ring(M, f)) \notin kept

\* ------------------------------------------------ snapping to a land boundary of one axis-parallel segment
Clip(v, a, b) == LET lo == Min2(a, b)
                     hi == Max2(a, b)
                 IN IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Nearest(p, L) == <<Clip(p[1], L[1][1], L[2][1]), Clip(p[2], L[1][2], L[2][2])>>
SnapOk(e) ==
    LET M == e.M
        N == e.N
        hit == e.P # <<>> /\ \E i \in DOMAIN M.n : Where(M.n[i], e.P) = "on"
    IN IF e.rc # 0 THEN N = M
       ELSE /\ N.e = M.e /\ Len(N.n) = Len(M.n)
            /\ \A i \in DOMAIN M.n : N.n[i] \in {M.n[i], Nearest(M.n[i], e.L)}
            /\ ~hit => \A i \in DOMAIN M.n : ~In(M, i, e.P) => N.n[i] = M.n[i]
=============================================================================
