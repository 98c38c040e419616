----------------------------- MODULE PolyTrace -----------------------------
(* Conformance of recorded polygon operations (harness/fam_poly.py). *)
EXTENDS Poly, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Set(s) == {s[i] : i \in DOMAIN s}
RefineOk(e) == LET R == Refined(e.P, SidesBetween(e.P, e.i, e.j), e.d, 1)
               IN e.ok /\ Len(e.Q) = Len(R) /\ \A k \in DOMAIN R : e.Q[k] # <<>> /\ Abs(e.Q[k][1] - R[k][1]) <= 1 /\ Abs(e.Q[k][2] - R[k][2]) <= 1
\* what lies outside the interval stays; the ends stay; the points in between lie on the path one after the other
LinearOk(e) ==
    LET P == e.P
        Q == e.Q
        n == Len(P) + 1
        \* nodes kept before and after the refined part
        before == IF e.i < e.j THEN [k \in 1..(e.i - 1) |-> P[k]] ELSE [k \in 1..(e.i - e.j) |-> At(P, e.j + k - 1)]
        after == IF e.i < e.j THEN [k \in 1..(n - e.j) |-> At(P, e.j + k)] ELSE <<>>
        m == Len(Q) - Len(before) - Len(after)
        mid == SubSeq(Q, Len(before) + 1, Len(before) + m)
        T == PathBetween(P, e.i, e.j)
        ch == ChainOf(T)
        W == Walk(T, ch, mid, 0)
    IN /\ e.ok /\ m >= 2
       /\ SubSeq(Q, 1, Len(before)) = before /\ SubSeq(Q, Len(Q) - Len(after) + 1, Len(Q)) = after
       /\ mid[1] = T[1] /\ mid[m] = T[Len(T)]
       /\ Len(W) = m /\ W[m] >= ch[Len(T)] - 4
       /\ \A k \in 1..(m - 1) : W[k] >= 0 /\ W[k + 1] > W[k]
OffsetOk(e) ==
    LET r == Len(e.P)
        H == <<0>> \o e.H
        other == [k \in 1..r |-> e.Q[r + k]]
    IN /\ e.ok
       /\ IF e.both = 0 THEN Len(e.Q) = r /\ e.seps = e.H /\ \A k \in 1..r : OffsetOf(e.P[k], e.Q[k], e.d)
          ELSE /\ Len(e.Q) = 2 * r /\ e.seps = e.H \o H
               /\ \A k \in 1..r : OffsetOf(e.P[k], e.Q[k], e.d) /\ OffsetOf(e.P[k], other[k], -e.d)
\* the nodes from i on up to j, over the start of the ring when j comes before i
Between(i, j, k) == IF i <= j THEN i <= k /\ k <= j ELSE i <= k \/ k <= j
SnapOk(e) ==
    /\ Len(e.Q) = Len(e.P)
    /\ \A r \in DOMAIN e.P : Len(e.Q[r]) = Len(e.P[r]) + 1
    /\ \A r \in DOMAIN e.P : \A k \in 1..(Len(e.P[r]) + 1) :
         IF r = e.r /\ Between(e.i, e.j, k) THEN e.Q[r][k] \in Nearest(At(e.P[r], k), e.L) ELSE e.Q[r][k] = At(e.P[r], k)
\* triangles that fill exactly the polygon
TriOk(e) ==
    LET F == DOMAIN e.f
        n == Len(e.n)
        P == e.P
        sides == {{e.f[f][k], e.f[f][Nxt(k, 3)]} : f \in F, k \in 1..3}
        once == {x \in sides : Cardinality({f \in F : x \subseteq Set(e.f[f])}) = 1}
        two == {x \in sides : Cardinality({f \in F : x \subseteq Set(e.f[f])}) = 2}
        node(p) == {i \in 1..n : e.n[i] # <<>> /\ Abs(e.n[i][1] - p[1]) <= 2 /\ Abs(e.n[i][2] - p[2]) <= 2}
        ringLinks == {{CHOOSE i \in node(P[k]) : TRUE, CHOOSE i \in node(P[Nxt(k, Len(P))]) : TRUE} : k \in DOMAIN P}
    IN /\ F # {} /\ \A f \in F : Len(e.f[f]) = 3 /\ 0 \notin Set(e.f[f])
       /\ \A f \in F : Cross(e.n[e.f[f][1]], e.n[e.f[f][2]], e.n[e.f[f][3]]) > 0
       /\ \A k \in DOMAIN P : Cardinality(node(P[k])) = 1
       /\ once = ringLinks /\ sides = once \cup two
       /\ n - Cardinality(sides) + Cardinality(F) = 1
       /\ {{e.e[x][1], e.e[x][2]} : x \in DOMAIN e.e} = sides /\ Len(e.e) = Cardinality(sides)

Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "refine" /\ (e.rc # 0 \/ ~RefineOk(e)) THEN {"polygon"} ELSE {})
    \cup (IF e.k = "linear" /\ (e.rc # 0 \/ ~LinearOk(e)) THEN {"polygon"} ELSE {})
    \cup (IF e.k = "offset" /\ (e.rc # 0 \/ ~OffsetOk(e)) THEN {"polygon"} ELSE {})
    \cup (IF e.k = "snap" /\ (e.rc # 0 \/ ~SnapOk(e)) THEN {"polygon"} ELSE {})
    \cup (IF e.k = "tri" /\ (e.rc # 0 \/ ~TriOk(e)) THEN {"polygon"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
