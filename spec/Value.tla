-------------------------------- MODULE Value --------------------------------
(***************************************************************************)
(* Interpolation of samples <<x, y, v>> to the nodes, edges or faces of a  *)
(* mesh of equal rectangles (w by h).  Results are in hundredths; the      *)
(* number Missing stands for no value.                                     *)
(***************************************************************************)
EXTENDS Plane

Missing == 999999
Set(s) == {s[i] : i \in DOMAIN s}
P2(p) == <<p[1], p[2]>>
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y

\* where the values belong
Places(e) == IF e.loc = "nodes" THEN e.n
             ELSE IF e.loc = "edges" THEN [x \in DOMAIN e.e |-> Mid(e.n[e.e[x][1]], e.n[e.e[x][2]])]
             ELSE [f \in DOMAIN e.f |-> LET c == {e.n[i] : i \in Set(e.f[f])} IN <<(MinOf({p[1] : p \in c}) + MaxOf({p[1] : p \in c})) \div 2, (MinOf({p[2] : p \in c}) + MaxOf({p[2] : p \in c})) \div 2>>]

\* samples around a face: those in it; around a node: those in the quarters of its faces that meet there
InCell(e, f, s) == LET c == {e.n[i] : i \in Set(e.f[f])} IN MinOf({p[1] : p \in c}) < s[1] /\ s[1] < MaxOf({p[1] : p \in c}) /\ MinOf({p[2] : p \in c}) < s[2] /\ s[2] < MaxOf({p[2] : p \in c})
Around(e, where, i) ==
    IF where = "faces" THEN {s \in Set(e.S) : InCell(e, i, s)}
    ELSE {s \in Set(e.S) : 2 * Abs(s[1] - e.n[i][1]) < e.w /\ 2 * Abs(s[2] - e.n[i][2]) < e.h /\ \E f \in DOMAIN e.f : i \in Set(e.f[f]) /\ InCell(e, f, s)}

\* the set of admissible results, from the samples around the place (all of them with their values)
RECURSIVE Total(_)
Total(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN x[3] + Total(X \ {x})
Near(v, num, den) == Abs(v * den - 100 * num) <= den
Average(e, X, p, v) ==
    LET V == {s[3] : s \in X}
        n == Cardinality(X)
    IN IF X = {} THEN v = Missing
       ELSE CASE e.how = "simple_averaging" -> IF n < e.few THEN v = Missing ELSE Near(v, Total(X), n)
              [] e.how = "closest_point" -> \E s \in X : Near(v, s[3], 1) /\ \A t \in X : Dist2(P2(s), p) <= Dist2(P2(t), p)
              [] e.how = "max" -> Near(v, MaxOf(V), 1)
              [] e.how = "min" -> Near(v, MinOf(V), 1)
              [] e.how = "min_absolute_value" -> Near(v, MinOf({Abs(x) : x \in V}), 1)
              [] OTHER -> \/ v = Missing
                          \/ 100 * MinOf(V) - 1 <= v /\ v <= 100 * MaxOf(V) + 1
\* an edge gets the mean of what its nodes get
EdgeMean(a, b, v) == IF a = Missing \/ b = Missing THEN v = Missing ELSE Abs(2 * v - a - b) <= 3

\* triangulation: the value of the plane through the three samples of a Delaunay triangle around the place
InCircle(a, b, c, p) ==
    LET d(q) == <<q[1] - p[1], q[2] - p[2], (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])>>
        x == d(a)
        y == d(b)
        z == d(c)
    IN x[3] * (y[1] * z[2] - y[2] * z[1]) - y[3] * (x[1] * z[2] - x[2] * z[1]) + z[3] * (x[1] * y[2] - x[2] * y[1])
Triples(S) == {<<i, j, k>> \in (DOMAIN S) \X (DOMAIN S) \X (DOMAIN S) : Cross(S[i], S[j], S[k]) > 0 /\ i < j /\ i < k}
DelaunayTriples(S) == {t \in Triples(S) : \A q \in DOMAIN S \ {t[1], t[2], t[3]} : InCircle(S[t[1]], S[t[2]], S[t[3]], S[q]) <= 0}
Weights(S, t, p) == <<Cross(S[t[2]], S[t[3]], p), Cross(S[t[3]], S[t[1]], p), Cross(S[t[1]], S[t[2]], p)>>
Covers(w) == w[1] >= 0 /\ w[2] >= 0 /\ w[3] >= 0
Inside(w) == w[1] > 0 /\ w[2] > 0 /\ w[3] > 0
OnPlane(S, t, w, v) == LET d == w[1] + w[2] + w[3]
                       IN Abs(v * d - 100 * (w[1] * S[t[1]][3] + w[2] * S[t[2]][3] + w[3] * S[t[3]][3])) <= 2 * d
Interpolated(S, all, del, p, v) ==
    IF v = Missing THEN \A t \in all : ~Inside(Weights(S, t, p))
    ELSE \E t \in del : LET w == Weights(S, t, p) IN Covers(w) /\ OnPlane(S, t, w, v)
=============================================================================
