----------------------------- MODULE GridTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded histories on a curvilinear grid                 *)
(* (harness/fam_grid.py) with the grid specification.                      *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
Set(s) == {s[i] : i \in DOMAIN s}

Block(g, p, q) == {<<Lo(x, y), Hi(x, y)>> : x \in Nearest(g, p), y \in Nearest(g, q)}
Refused(g, e) == e.rc # 0 /\ Same(e.g, g)

\* twice the same node is no block: may be refused
Dot(b, g, e) == b[1] = b[2] /\ Refused(g, e)

\* one of the two new nodes is there already: the face is made, where the new nodes go is left to the library, all else stays
Filled(g, h, new) == /\ NumN(h) = NumN(g) /\ NumM(h) = NumM(g)
                     /\ \A x \in new : Node(h, x) # Null
                     /\ LET p == Prune(g) IN \A x \in Idx(g) \ new : Node(p, x) # Null => Node(h, x) = Node(p, x)
InsertOk(g, e) ==
    \E x \in NearestEdges(g, <<2 * e.p[1], 2 * e.p[2]>>) :
        LET F == FacesAt(g, x)
        IN CASE Cardinality(F) = 2 -> Refused(g, e)
             [] Cardinality(F) = 0 -> TRUE
             [] OTHER -> LET s == SideOf(g, x)
                             S == {x[1], x[2]}
                         IN IF \E y \in S : Out(y, s) \in Idx(g) /\ Node(g, Out(y, s)) # Null THEN Refused(g, e) \/ (e.rc = 0 /\ Filled(g, e.g, {Out(y, s) : y \in S}))
                            ELSE e.rc = 0 /\ Same(e.g, Grow(Prune(g), S, s, 1))
MirrorOk(g, e) ==
    \E b \in Block(g, e.p, e.q) :
        LET S == {x \in Idx(g) : Inside(x, b[1], b[2])}
            along == IF b[1][1] = b[2][1] THEN "m" ELSE "n"
            side == IF along = "m" THEN (IF b[1][1] = 1 THEN "n-" ELSE "n+") ELSE (IF b[1][2] = 1 THEN "m-" ELSE "m+")
        IN e.rc = 0 /\ Same(e.g, Grow(g, S, side, e.f))
RefineOk(g, e) ==
    \E b \in Block(g, e.p, e.q) :
        LET lo == b[1] hi == b[2]
        IN IF Dot(b, g, e) THEN TRUE ELSE IF lo[1] # hi[1] /\ lo[2] # hi[2] THEN Refused(g, e)
           ELSE e.rc = 0 /\ IsRefined(g, e.g, lo[1], hi[1], IF lo[1] = hi[1] THEN 1 ELSE e.f, lo[2], hi[2], IF lo[2] = hi[2] THEN 1 ELSE e.f)
EditOk(g, e) ==
    CASE e.k = "set" -> e.rc = 0 /\ Same(e.g, e.a) /\ e.g = e.a
      [] e.k = "delnode" -> e.rc = 0 /\ \E x \in Nearest(g, e.p) : Same(e.g, Erase(g, {x})) /\ Node(e.g, x) = Null
      [] e.k = "move" -> e.rc = 0 /\ \E x \in Nearest(g, e.p) : Same(e.g, Put(g, x, e.q))
      [] e.k = "insert" -> InsertOk(g, e)
      [] e.k = "interior" -> \E b \in Block(g, e.p, e.q) : Dot(b, g, e) \/ (e.rc = 0 /\ Same(e.g, Erase(g, Interior(g, b[1], b[2]))))
      [] e.k = "exterior" -> \E b \in Block(g, e.p, e.q) : Dot(b, g, e) \/ (e.rc = 0 /\ Same(e.g, Erase(g, Exterior(g, b[1], b[2]))))
      [] e.k = "refine" -> RefineOk(g, e)
      [] e.k = "fullrefine" -> e.rc = 0 /\ IF e.fm = 1 /\ e.fn = 1 THEN Same(e.g, g) ELSE IsRefined(g, e.g, 1, NumN(g), e.fn, 1, NumM(g), e.fm)
      [] e.k = "derefine" -> \E b \in Block(g, e.p, e.q) : LET h == DeRefined(g, b[1], b[2]) IN Dot(b, g, e) \/ IF NumN(h) < 2 \/ NumM(h) < 2 THEN Refused(g, e) ELSE e.rc = 0 /\ Same(e.g, h)
      [] e.k = "mirror" -> MirrorOk(g, e)
      [] OTHER -> TRUE

---------------------------------------------------------------------------
\* answers
InBox(p, s, b) == b[1] * s <= p[1] /\ p[1] <= b[3] * s /\ b[2] * s <= p[2] /\ p[2] <= b[4] * s
StrictBox(p, s, b) == b[1] * s < p[1] /\ p[1] < b[3] * s /\ b[2] * s < p[2] /\ p[2] < b[4] * s
\* nearest of the places at(i)/s (in doubled units) in the box
NearestOk(S, at(_), s, p, box, rc, x) ==
    LET sure == {i \in S : StrictBox(at(i), s, box)}
        may == {i \in S : InBox(at(i), s, box)}
        q == <<s * p[1], s * p[2]>>
    IN IF rc # 0 THEN sure = {} ELSE IF x \notin may THEN FALSE ELSE \A i \in sure : Dist2(at(x), q) <= Dist2(at(i), q)
WhereOk(g, e) ==
    LET N == NumN(g) M == NumM(g)
        nodeAt(i) == <<((i - 1) \div M) + 1, ((i - 1) % M) + 1>>
        faceAt(i) == <<((i - 1) \div (M - 1)) + 1, ((i - 1) % (M - 1)) + 1>>
        ne == (N - 1) * M
        edgeAt(i) == IF i <= ne THEN LET x == nodeAt(i) IN <<x, <<x[1] + 1, x[2]>>>>
                     ELSE LET x == faceAt(i - ne) IN <<x, <<x[1], x[2] + 1>>>>
        two(x) == <<2 * Node(g, x)[1], 2 * Node(g, x)[2]>>
        mid(f) == LET c == Corners(f) IN <<Node(g, f)[1] + Node(g, <<f[1] + 1, f[2]>>)[1] + Node(g, <<f[1], f[2] + 1>>)[1] + Node(g, <<f[1] + 1, f[2] + 1>>)[1],
                                           Node(g, f)[2] + Node(g, <<f[1] + 1, f[2]>>)[2] + Node(g, <<f[1], f[2] + 1>>)[2] + Node(g, <<f[1] + 1, f[2] + 1>>)[2]>>
    IN /\ Same(e.g, g)
       /\ \A k \in DOMAIN e.out :
            LET o == e.out[k] i == IF o[2] = 0 THEN 1 ELSE o[2]
            IN CASE o[3] = "node" -> NearestOk(ValidNodes(g), two, 1, e.p, o[4], o[1], nodeAt(i))
                 [] o[3] = "edge" -> NearestOk(ValidEdges(g), LAMBDA x : Mid2(g, x), 1, e.p, o[4], o[1], edgeAt(i))
                 [] OTHER -> NearestOk(Faces(g), mid, 2, e.p, o[4], o[1], faceAt(i))
BoundOk(g, e) ==
    LET F == {f \in Faces(g) : Inside(f, e.lo, e.hi) /\ Inside(<<f[1] + 1, f[2] + 1>>, e.lo, e.hi)}
        B == {x \in ValidEdges(g) : Cardinality({f \in F : x[1] \in Corners(f) /\ x[2] \in Corners(f)}) = 1}
        steps == UNION {{<<k, i>> : i \in 1..(Len(e.P[k]) - 1)} : k \in DOMAIN e.P}
        on(x, t) == LET a == e.P[t[1]][t[2]] b == e.P[t[1]][t[2] + 1] IN {Node(g, x[1]), Node(g, x[2])} = {a, b}
        pts == {Node(g, x) : x \in ValidNodes(g)}
    IN (Cardinality(pts) = Cardinality(ValidNodes(g))) =>
         /\ e.rc = 0 /\ Same(e.g, g)
         /\ \A k \in DOMAIN e.P : Len(e.P[k]) >= 5 /\ e.P[k][1] = e.P[k][Len(e.P[k])]
         /\ \A x \in B : Cardinality({t \in steps : on(x, t)}) = 1
         /\ Cardinality(steps) = Cardinality(B)
ToMeshOk(g, e) ==
    LET E == ValidEdges(g)
        N == UNION {{x[1], x[2]} : x \in E}
        P == {Node(g, x) : x \in N}
        mn == {i \in DOMAIN e.m.n : e.m.n[i] # Null}
        me == {i \in DOMAIN e.m.e : e.m.e[i] # Null}
        used == UNION {{e.m.e[i][1], e.m.e[i][2]} : i \in me}
        \* the mesh there was before stays
        we == {i \in DOMAIN e.was.e : e.was.e[i] # Null}
        wused == UNION {{e.was.e[i][1], e.was.e[i][2]} : i \in we}
    IN Cardinality(P) = Cardinality(N) =>
         /\ e.rc = 0 /\ e.g = <<>>
         /\ {e.m.n[i] : i \in used} = P \cup {e.was.n[i] : i \in wused} /\ Cardinality(used) = Cardinality(P) + Cardinality(wused)
         /\ {{e.m.n[e.m.e[i][1]], e.m.n[e.m.e[i][2]]} : i \in me} = {{Node(g, x[1]), Node(g, x[2])} : x \in E} \cup {{e.was.n[e.was.e[i][1]], e.was.n[e.was.e[i][2]]} : i \in we}
         /\ Cardinality(me) = Cardinality(E) + Cardinality(we)
Adjacent(f, d) == Abs(f[1] - d[1]) + Abs(f[2] - d[2]) = 1
RECURSIVE Spread(_, _)
Spread(F, S) == LET T == S \cup {f \in F : \E d \in S : Adjacent(f, d)} IN IF T = S THEN S ELSE Spread(F, T)
\* the cells are convex, all the same way round: a mesh finds its faces back
Ring(g, f) == <<Node(g, f), Node(g, <<f[1], f[2] + 1>>), Node(g, <<f[1] + 1, f[2] + 1>>), Node(g, <<f[1] + 1, f[2]>>)>>
Turns(P) == {Sgn(Cross(P[i], P[Nxt(i, 4)], P[Nxt(Nxt(i, 4), 4)])) : i \in 1..4}
Unfolded(g) == LET T == UNION {Turns(Ring(g, f)) : f \in Faces(g)} IN T \subseteq {1} \/ T \subseteq {-1}
\* old is the grid that was turned into the mesh
FromMeshOk(old, e) ==
    LET C == Spread(Faces(old), {e.f})
        nodes == UNION {Corners(f) : f \in C}
        pts(g, f) == {Node(g, x) : x \in Corners(f)}
        \* nodes side by side without a common face: the library may stop there
        pinched == \E x \in ValidEdges(old) : x[1] \in nodes /\ x[2] \in nodes /\ FacesAt(old, x) \cap C = {}
        got == {pts(e.g, f) : f \in Faces(e.g)}
        all == {pts(old, f) : f \in C}
    IN (Unfolded(old) /\ Cardinality({Node(old, x) : x \in ValidNodes(old)}) = Cardinality(ValidNodes(old))) =>
         /\ (e.rc = 0 \/ ~Affine(old))                    \* a skewed cell may not be found at its centre
         /\ e.rc = 0 =>
             /\ pts(old, e.f) \in got
             /\ (IF pinched THEN got \subseteq all ELSE got = all /\ Cardinality(Faces(e.g)) = Cardinality(C))
             /\ \A x, y \in OnFaces(e.g) : Node(e.g, x) = Node(e.g, y) => x = y
\* from a cell of any mesh: what is side by side in the grid is joined by an edge of the mesh, no node is there twice
IrregularOk(g, e) ==
    LET me == {i \in DOMAIN e.m.e : e.m.e[i] # Null}
        P(i) == e.m.n[i]
        used == UNION {{e.m.e[i][1], e.m.e[i][2]} : i \in me}
        segs == {{P(e.m.e[i][1]), P(e.m.e[i][2])} : i \in me}
        plain == \A i, j \in me : i < j => ~ProperCross(P(e.m.e[i][1]), P(e.m.e[i][2]), P(e.m.e[j][1]), P(e.m.e[j][2]))
    IN Cardinality({P(i) : i \in used}) = Cardinality(used) =>
         IF e.rc # 0 THEN e.after = e.m
         ELSE /\ {Node(e.g, x) : x \in ValidNodes(e.g)} \subseteq {P(i) : i \in used}
              /\ Cardinality({Node(e.g, x) : x \in ValidNodes(e.g)}) = Cardinality(ValidNodes(e.g))
              /\ \A x \in ValidEdges(e.g) : {Node(e.g, x[1]), Node(e.g, x[2])} \in segs
              /\ plain => Set(e.f) \in {{Node(e.g, x) : x \in Corners(c)} : c \in Faces(e.g)}
AnswerOk(g, e) ==
    CASE e.k = "where" -> WhereOk(g, e)
      [] e.k = "bound" -> BoundOk(g, e)
      [] e.k = "tomesh" -> ToMeshOk(g, e)
      [] e.k = "fromMesh" -> FromMeshOk(g, e)
      [] e.k = "irregular" -> IrregularOk(g, e)
      [] OTHER -> TRUE

---------------------------------------------------------------------------
\* local deformations: which nodes may change
OnLine(x, L) == L # <<>> /\ Inside(x, L[1], L[2])
Region(e) ==
    LET lo == e.lo hi == e.hi
        alongN == e.L # <<>> /\ e.L[1][2] = e.L[2][2]         \* the line runs in the n direction
        wide == IF alongN THEN <<<<e.L[1][1], lo[2]>>, <<e.L[2][1], hi[2]>>>> ELSE <<<<lo[1], e.L[1][2]>>, <<hi[1], e.L[2][2]>>>>
    IN CASE e.op \in {"smooth", "ortho"} -> <<lo, hi>>
         [] e.op \in {"smoothdir", "attract"} -> wide
         [] e.op \in {"shift"} -> <<<<Min2(wide[1][1], e.L[1][1]), Min2(wide[1][2], e.L[1][2])>>, <<Max2(wide[2][1], e.L[2][1]), Max2(wide[2][2], e.L[2][2])>>>>
         [] OTHER -> <<lo, hi>>
LocalOk(g, e) ==
    LET R == Region(e) on == OnFaces(g)
    IN IF e.rc # 0 THEN {x \in Set(e.moved) : x \in on} = {}
       ELSE /\ e.crook = 0                                   \* a line along no grid line is refused
            /\ e.dims = 1 /\ e.nan = 0 /\ e.born = <<>>        \* no node comes from nowhere
            /\ \A x \in Set(e.gone) : x \notin on
            /\ \A x \in Set(e.moved) : x \in on => Inside(x, R[1], R[2])
            /\ (e.op = "attract" /\ e.L # <<>>) => \A x \in Set(e.moved) : x \in on => ~OnLine(x, e.L)
            \* frozen lines stay, but for their nodes on the border of the grid, which slide along it
            /\ (e.op = "ortho" /\ e.L # <<>>) => \A x \in Set(e.moved) : Cardinality({f \in Faces(g) : x \in Corners(f)}) = 4 => ~OnLine(x, e.L)
            /\ (e.op = "shift" /\ e.extra # <<>>) => e.at = <<<<1000 * e.extra[3], 1000 * e.extra[4]>>>>

Labels(g, e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF EditOk(g, e) THEN {} ELSE {"edit"})
    \cup (IF AnswerOk(g, e) THEN {} ELSE {"answer"})
    \cup (IF e.k = "local" /\ ~LocalOk(g, e) THEN {"local"} ELSE {})

Init == l = 1 /\ cur = <<>>
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(cur, e)
       IN /\ \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o (IF "op" \in DOMAIN e THEN "-" \o e.op ELSE ""))
          /\ cur' = IF e.k = "reset" THEN <<>> ELSE IF e.k = "tomesh" THEN cur ELSE IF "g" \in DOMAIN e THEN e.g ELSE cur
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_<<l, cur>>
=============================================================================
