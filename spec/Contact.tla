------------------------------ MODULE Contact ------------------------------
(***************************************************************************)
(* Contacts between a 1D mesh D = [n, e] and a 2D mesh M = [n, e, f] of    *)
(* rectangles: which pairs <<node of D, face of M>> each of the five ways  *)
(* of computing contacts may and must produce.  C is a sequence of pairs.  *)
(***************************************************************************)
EXTENDS Plane

Set(s) == {s[i] : i \in DOMAIN s}
Ring(M, f) == TLCEval([i \in DOMAIN M.f[f] |-> M.n[M.f[f][i]]])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* centre of a rectangle
Centre(M, f) == LET P == Ring(M, f)
                    xs == {P[i][1] : i \in DOMAIN P}
                    ys == {P[i][2] : i \in DOMAIN P}
                IN <<(MinOf(xs) + MaxOf(xs)) \div 2, (MinOf(ys) + MaxOf(ys)) \div 2>>
FacesAt(M, p) == {f \in DOMAIN M.f : Where(p, Ring(M, f)) = "in"}
Sides(M, f) == LET k == Len(M.f[f]) IN {{M.f[f][i], M.f[f][Nxt(i, k)]} : i \in 1..k}
BorderEdges(M) == {e \in DOMAIN M.e : Cardinality({f \in DOMAIN M.f : Set(M.e[e]) \in Sides(M, f)}) = 1}
FaceOf(M, e) == CHOOSE f \in DOMAIN M.f : Set(M.e[e]) \in Sides(M, f)
BorderFaces(M) == {FaceOf(M, e) : e \in BorderEdges(M)}
Inside(p, P) == IF P = <<>> THEN "in" ELSE WhereIn(p, P)
EdgesAt(D, n) == {e \in DOMAIN D.e : n \in Set(D.e[e])}
Other(D, e, n) == IF D.e[e][1] = n THEN D.e[e][2] ELSE D.e[e][1]

Valid(M, D, mask, C) == \A k \in DOMAIN C : C[k][1] \in DOMAIN D.n /\ C[k][2] \in DOMAIN M.f /\ mask[C[k][1]] = 1
NoTwice(C) == \A j, k \in DOMAIN C : j < k => C[j] # C[k]

(***************************************************************************)
(* single: a node in a face is joined to that face; another node to the    *)
(* first border face met left and right of it, unless the contact would    *)
(* cross the 1D mesh or another contact                                    *)
(***************************************************************************)
\* the direction across the 1D mesh at node n
Aside(D, n) == LET es == EdgesAt(D, n)
                   e1 == MinOf(es)
                   a == IF Cardinality(es) = 1 THEN D.n[n] ELSE D.n[Other(D, e1, n)]
                   b == IF Cardinality(es) = 1 THEN D.n[Other(D, e1, n)] ELSE D.n[Other(D, MinOf(es \ {e1}), n)]
               IN <<b[2] - a[2], a[1] - b[1]>>
Target(D, n, fac) == LET d == Aside(D, n) IN <<D.n[n][1] + fac * d[1], D.n[n][2] + fac * d[2]>>
\* position <<num, den>> (den > 0) along p -> q of the crossing with the line a - b, which is not parallel
At(p, q, a, b) == LET den == (q[1] - p[1]) * (b[2] - a[2]) - (q[2] - p[2]) * (b[1] - a[1])
                      num == (a[1] - p[1]) * (b[2] - a[2]) - (a[2] - p[2]) * (b[1] - a[1])
                  IN IF den > 0 THEN <<num, den>> ELSE <<-num, -den>>
Met(M, p, q) == {e \in BorderEdges(M) : Meet(p, q, M.n[M.e[e][1]], M.n[M.e[e][2]])}
Clear(M, p, q) == \A e \in Met(M, p, q) : ProperCross(p, q, M.n[M.e[e][1]], M.n[M.e[e][2]])
First(M, p, q) ==    \* faces that may be the first one met
    LET met == Met(M, p, q)
        at == TLCEval([e \in met |-> At(p, q, M.n[M.e[e][1]], M.n[M.e[e][2]])])
    IN IF Clear(M, p, q) THEN {FaceOf(M, e) : e \in {x \in met : \A y \in met : at[x][1] * at[y][2] <= at[y][1] * at[x][2]}}
       ELSE {FaceOf(M, e) : e \in met}
ContactCrosses(M, D, C, n, f) ==
    \/ \E e \in DOMAIN D.e : Meet(D.n[n], Centre(M, f), D.n[D.e[e][1]], D.n[D.e[e][2]]) /\ n \notin Set(D.e[e])
    \/ \E k \in DOMAIN C : C[k] # <<n, f>> /\ C[k][1] # n /\ Meet(D.n[n], Centre(M, f), D.n[C[k][1]], Centre(M, C[k][2]))
CrossesProperly(M, D, n, f) == \E e \in DOMAIN D.e : ProperCross(D.n[n], Centre(M, f), D.n[D.e[e][1]], D.n[D.e[e][2]])
Single(M, D, mask, P, fac, C) ==
    /\ NoTwice(C)
    /\ \A n \in DOMAIN D.n :
        LET mine == {C[k][2] : k \in {j \in DOMAIN C : C[j][1] = n}}
            where == Inside(D.n[n], P)
            at == FacesAt(M, D.n[n])
            left == First(M, D.n[n], Target(D, n, fac))
            right == First(M, D.n[n], Target(D, n, -fac))
            must(side, q) == \A f \in side : (side = {f} /\ Clear(M, D.n[n], q) /\ ~ContactCrosses(M, D, C, n, f)) => f \in mine
        IN IF mask[n] = 0 \/ where = "out" THEN mine = {}
           ELSE IF at # {} THEN mine = at \/ (where = "on" /\ mine = {})
           ELSE /\ Cardinality(mine) <= 2 /\ mine \subseteq BorderFaces(M)
                /\ \A f \in mine : ~CrossesProperly(M, D, n, f)
                /\ Cardinality(EdgesAt(D, n)) <= 2 => mine \subseteq left \cup right     \* where the 1D mesh branches, across is not one direction
                /\ (where = "in" /\ Cardinality(EdgesAt(D, n)) <= 2) => must(left, Target(D, n, fac)) /\ must(right, Target(D, n, -fac))
    /\ \A j, k \in DOMAIN C : (j < k /\ FacesAt(M, D.n[C[k][1]]) = {}) => ~ProperCross(D.n[C[j][1]], Centre(M, C[j][2]), D.n[C[k][1]], Centre(M, C[k][2]))

(***************************************************************************)
(* multiple: a face crossed by the 1D mesh is joined to the nearer end of  *)
(* an edge that crosses it, if that end lies in the 2D mesh                *)
(***************************************************************************)
Multiple(M, D, mask, C) ==
    LET crossed(e, f, how(_, _, _, _)) == \E x \in Sides(M, f) : LET a == CHOOSE a \in x : TRUE
                                                                     b == CHOOSE b \in x : b # a
                                                                 IN how(D.n[D.e[e][1]], D.n[D.e[e][2]], M.n[a], M.n[b])
        far(e, i, f) == Dist2(D.n[D.e[e][i]], Centre(M, f))
    IN /\ \A j, k \in DOMAIN C : j # k => C[j][2] # C[k][2]
       /\ \A k \in DOMAIN C : LET n == C[k][1]
                                  f == C[k][2]
                              IN /\ FacesAt(M, D.n[n]) # {}
                                 /\ \E e \in EdgesAt(D, n) : crossed(e, f, Meet) /\ Dist2(D.n[n], Centre(M, f)) <= Dist2(D.n[Other(D, e, n)], Centre(M, f))
       /\ \A f \in DOMAIN M.f, e \in DOMAIN D.e :
            LET i == IF far(e, 1, f) <= far(e, 2, f) THEN 1 ELSE 2
                n == D.e[e][i]
            IN (crossed(e, f, ProperCross) /\ far(e, 1, f) # far(e, 2, f) /\ mask[n] = 1 /\ FacesAt(M, D.n[n]) # {} /\ far(e, 1, f) < Dist2(D.n[D.e[e][1]], D.n[D.e[e][2]]))
               => \E k \in DOMAIN C : C[k][2] = f

Nearest(D, mask, p, n) == mask[n] = 1 /\ \A m \in DOMAIN D.n : mask[m] = 1 => Dist2(D.n[n], p) <= Dist2(D.n[m], p)
\* points: each point in a face joins that face to the node nearest to the point
Points(M, D, mask, pts, C) ==
    LET hits == SelectSeq(pts, LAMBDA p : FacesAt(M, p) # {})
    IN IF \A m \in DOMAIN D.n : mask[m] = 0 THEN C = <<>>
       ELSE Len(C) = Len(hits) /\ \A k \in DOMAIN C : C[k][2] \in FacesAt(M, hits[k]) /\ Nearest(D, mask, hits[k], C[k][1])
\* polygons (apart from one another): the nearest pair of a node and a face with its centre in the polygon, for every polygon
Polygon(M, D, mask, P, C) ==
    LET free == {n \in DOMAIN D.n : mask[n] = 1}
        in(R) == {f \in DOMAIN M.f : Where(Centre(M, f), R) = "in"}
        on(R) == {f \in DOMAIN M.f : Where(Centre(M, f), R) = "on"}
        dists(R) == {Dist2(D.n[n], Centre(M, f)) : n \in free, f \in in(R)}
        Q == SelectSeq(P, LAMBDA R : in(R) # {})
    IN (\E k \in DOMAIN P : on(P[k]) # {}) \/
       IF free = {} THEN C = <<>>
       ELSE /\ Len(C) = Len(Q)
            /\ \A k \in DOMAIN C : C[k][2] \in in(Q[k]) /\ Dist2(D.n[C[k][1]], Centre(M, C[k][2])) = MinOf(dists(Q[k]))
\* boundary: each border face with its centre in the polygon is joined to the nearest of the nodes within reach
Boundary(M, D, mask, P, r2, C) ==
    LET reach(n) == IF r2 >= 0 THEN r2 ELSE MaxOf({Dist2(D.n[D.e[e][1]], D.n[D.e[e][2]]) : e \in EdgesAt(D, n)})
        sure(f) == {n \in DOMAIN D.n : mask[n] = 1 /\ Dist2(D.n[n], Centre(M, f)) < reach(n)}
        may(f) == {n \in DOMAIN D.n : mask[n] = 1 /\ Dist2(D.n[n], Centre(M, f)) <= reach(n)}
        d(n, f) == Dist2(D.n[n], Centre(M, f))
        where(f) == Inside(Centre(M, f), P)
    IN /\ \A j, k \in DOMAIN C : j # k => C[j][2] # C[k][2]
       /\ \A k \in DOMAIN C : LET n == C[k][1]
                                  f == C[k][2]
                              IN f \in BorderFaces(M) /\ where(f) # "out" /\ n \in may(f) /\ \A m \in sure(f) : d(n, f) <= d(m, f)
       /\ \A f \in BorderFaces(M) : (where(f) = "in" /\ sure(f) # {}) => \E k \in DOMAIN C : C[k][2] = f

Allowed(how, M, D, mask, P, fac, r2, pts, C) ==
    /\ Valid(M, D, mask, C)
    /\ CASE how = "single" -> Single(M, D, mask, P, fac, C)
         [] how = "multiple" -> Multiple(M, D, mask, C)
         [] how = "points" -> Points(M, D, mask, pts, C)
         [] how = "polygons" -> Polygon(M, D, mask, P, C)
         [] how = "boundary" -> Boundary(M, D, mask, P, r2, C)
=============================================================================
