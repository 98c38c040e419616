-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The curvilinear grid and its edits.                                     *)
(*                                                                         *)
(* A grid is a sequence of rows (index n) of nodes (index m), all rows of  *)
(* the same length; a node is <<x, y>> or Null.  A face is there when its  *)
(* four nodes are.                                                         *)
(***************************************************************************)
EXTENDS Plane

Null == <<>>
NumN(g) == Len(g)
NumM(g) == IF Len(g) = 0 THEN 0 ELSE Len(g[1])
Idx(g) == (1..NumN(g)) \X (1..NumM(g))
Node(g, x) == g[x[1]][x[2]]
ValidNodes(g) == {x \in Idx(g) : Node(g, x) # Null}
Corners(f) == {f, <<f[1] + 1, f[2]>>, <<f[1], f[2] + 1>>, <<f[1] + 1, f[2] + 1>>}
Faces(g) == {f \in (1..(NumN(g) - 1)) \X (1..(NumM(g) - 1)) : \A x \in Corners(f) : Node(g, x) # Null}
\* an edge is <<x, y>>, x before y
EdgesN(g) == {<<x, <<x[1] + 1, x[2]>>>> : x \in (1..(NumN(g) - 1)) \X (1..NumM(g))}
EdgesM(g) == {<<x, <<x[1], x[2] + 1>>>> : x \in (1..NumN(g)) \X (1..(NumM(g) - 1))}
ValidEdges(g) == {e \in EdgesN(g) \cup EdgesM(g) : Node(g, e[1]) # Null /\ Node(g, e[2]) # Null}
FacesAt(g, e) == {f \in Faces(g) : e[1] \in Corners(f) /\ e[2] \in Corners(f)}
OnFaces(g) == UNION {Corners(f) : f \in Faces(g)}
\* nodes on no face may be dropped
Prune(g) == LET on == OnFaces(g) IN [n \in 1..NumN(g) |-> [m \in 1..NumM(g) |-> IF <<n, m>> \in on THEN g[n][m] ELSE Null]]
Same(a, b) == /\ NumN(a) = NumN(b) /\ NumM(a) = NumM(b) /\ Prune(a) = Prune(b)
              /\ \A x \in ValidNodes(a) : Node(a, x) = Node(b, x)          \* a is what is observed

Set2(g, f(_, _)) == [n \in 1..NumN(g) |-> [m \in 1..NumM(g) |-> f(n, m)]]
Erase(g, S) == Set2(g, LAMBDA n, m : IF <<n, m>> \in S THEN Null ELSE g[n][m])
Put(g, x, p) == Set2(g, LAMBDA n, m : IF <<n, m>> = x THEN p ELSE g[n][m])
Nearest(g, p) == {x \in ValidNodes(g) : \A y \in ValidNodes(g) : Dist2(Node(g, x), p) <= Dist2(Node(g, y), p)}
Mid2(g, e) == <<Node(g, e[1])[1] + Node(g, e[2])[1], Node(g, e[1])[2] + Node(g, e[2])[2]>>        \* doubled units
NearestEdges(g, p2) == LET E == ValidEdges(g) IN {e \in E : \A d \in E : Dist2(Mid2(g, e), p2) <= Dist2(Mid2(g, d), p2)}
Lo(x, y) == <<Min2(x[1], y[1]), Min2(x[2], y[2])>>
Hi(x, y) == <<Max2(x[1], y[1]), Max2(x[2], y[2])>>
Inside(x, lo, hi) == lo[1] <= x[1] /\ x[1] <= hi[1] /\ lo[2] <= x[2] /\ x[2] <= hi[2]
Interior(g, lo, hi) == {x \in Idx(g) : lo[1] < x[1] /\ x[1] < hi[1] /\ lo[2] < x[2] /\ x[2] < hi[2]}
Exterior(g, lo, hi) == {x \in Idx(g) : ~Inside(x, lo, hi)}

\* the grid with one more (empty) line at a side; where an old index comes to lie
Sides == {"n-", "n+", "m-", "m+"}
Extended(g, s) ==
    LET row == [m \in 1..NumM(g) |-> Null]
    IN CASE s = "n-" -> <<row>> \o g
         [] s = "n+" -> Append(g, row)
         [] s = "m-" -> [n \in 1..NumN(g) |-> <<Null>> \o g[n]]
         [] OTHER -> [n \in 1..NumN(g) |-> Append(g[n], Null)]
Moved(x, s) == CASE s = "n-" -> <<x[1] + 1, x[2]>> [] s = "m-" -> <<x[1], x[2] + 1>> [] OTHER -> x
Out(x, s) == CASE s = "n-" -> <<x[1] - 1, x[2]>> [] s = "n+" -> <<x[1] + 1, x[2]>> [] s = "m-" -> <<x[1], x[2] - 1>> [] OTHER -> <<x[1], x[2] + 1>>
In(x, s) == CASE s = "n-" -> <<x[1] + 1, x[2]>> [] s = "n+" -> <<x[1] - 1, x[2]>> [] s = "m-" -> <<x[1], x[2] + 1>> [] OTHER -> <<x[1], x[2] - 1>>
\* a beyond b, f times as far: b is the inner node
Beyond(a, b, f) == <<(1 + f) * a[1] - f * b[1], (1 + f) * a[2] - f * b[2]>>
\* new nodes beyond the nodes S (all with a node on the inner side), on side s
Grow(g, S, s, f) ==
    LET needs == \E x \in S : Out(x, s) \notin Idx(g)
        h == IF needs THEN Extended(g, s) ELSE g
        mv(x) == IF needs THEN Moved(x, s) ELSE x
        new == {Out(mv(x), s) : x \in S}
        orig(y) == CHOOSE x \in S : Out(mv(x), s) = y
    IN Set2(h, LAMBDA n, m : IF <<n, m>> \in new THEN Beyond(Node(g, orig(<<n, m>>)), Node(g, In(orig(<<n, m>>), s)), f) ELSE h[n][m])
\* on which side of its only face a border edge lies
SideOf(g, e) == LET f == CHOOSE f \in FacesAt(g, e) : TRUE
                IN IF e[1][1] = e[2][1] THEN (IF e[1][1] = f[1] THEN "n-" ELSE "n+") ELSE (IF e[1][2] = f[2] THEN "m-" ELSE "m+")

\* index maps of refining lines a..b by f, and of taking out the lines between a and b
NewAt(o, a, b, f) == IF o <= a THEN o ELSE IF o <= b THEN a + (o - a) * f ELSE o + (b - a) * (f - 1)
Keep(N, a, b) == {o \in 1..N : o <= a \/ o >= b}
Nth(S, k) == CHOOSE o \in S : Cardinality({j \in S : j <= o}) = k
DeRefined(g, lo, hi) ==
    LET kn == Keep(NumN(g), lo[1], hi[1]) km == Keep(NumM(g), lo[2], hi[2])
    IN [n \in 1..Cardinality(kn) |-> [m \in 1..Cardinality(km) |-> g[Nth(kn, n)][Nth(km, m)]]]
\* straight, evenly spaced grid lines: then refining is exact
Even(a, b, c) == a = Null \/ b = Null \/ c = Null \/ (a[1] + c[1] = 2 * b[1] /\ a[2] + c[2] = 2 * b[2])
Affine(g) == /\ \A n \in 1..NumN(g), m \in 1..NumM(g) : /\ (n + 2 <= NumN(g) => Even(g[n][m], g[n + 1][m], g[n + 2][m]))
                                                        /\ (m + 2 <= NumM(g) => Even(g[n][m], g[n][m + 1], g[n][m + 2]))
             /\ \A f \in Faces(g) : \A k \in 1..2 : g[f[1]][f[2]][k] + g[f[1] + 1][f[2] + 1][k] = g[f[1] + 1][f[2]][k] + g[f[1]][f[2] + 1][k]
\* h is g with the lines a1..b1 (n) refined fn times and a2..b2 (m) refined fm times
IsRefined(g, h, a1, b1, fn, a2, b2, fm) ==
    LET N == NumN(g) M == NumM(g)
        an(o) == NewAt(o, a1, b1, fn) am(o) == NewAt(o, a2, b2, fm)
        fns(o) == IF o >= a1 /\ o < b1 THEN fn ELSE 1
        fms(o) == IF o >= a2 /\ o < b2 THEN fm ELSE 1
        on == OnFaces(g)
        F == Faces(g)
        covered == UNION {{<<an(f[1]) + j, am(f[2]) + k>> : j \in 0..fns(f[1]), k \in 0..fms(f[2])} : f \in F}
    IN /\ NumN(h) = an(N) /\ NumM(h) = am(M)
       /\ \A x \in Idx(g) : h[an(x[1])][am(x[2])] = IF x \in on THEN Node(g, x) ELSE Null
       /\ ValidNodes(h) = covered
       /\ Affine(g) => \A f \in F : LET A == g[f[1]][f[2]] B == g[f[1] + 1][f[2]] C == g[f[1]][f[2] + 1] p == fns(f[1]) q == fms(f[2])
                                    IN \A j \in 0..p, k \in 0..q : \A d \in 1..2 :
                                         p * q * (h[an(f[1]) + j][am(f[2]) + k][d] - A[d]) = j * q * (B[d] - A[d]) + k * p * (C[d] - A[d])
=============================================================================
