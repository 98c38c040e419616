----------------------------- MODULE ValueTrace -----------------------------
(* Conformance of recorded interpolations (harness/fam_value.py). *)
EXTENDS Value, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

PlacesOk(e) == e.ok /\ e.at = Places(e) /\ Len(e.v) = Len(e.at)
\* on an irregular mesh: the values at the faces whose samples all lie off their sides
FreeOk(e) ==
    /\ e.ok /\ Len(e.v) = Len(e.f)
    /\ \A f \in DOMAIN e.f :
         LET R == TLCEval([k \in DOMAIN e.f[f] |-> e.n[e.f[f][k]]])
             at == TLCEval([k \in DOMAIN e.S |-> Where(P2(e.S[k]), R)])
             X == {e.S[k] : k \in {k \in DOMAIN e.S : at[k] = "in"}}
             V == {IF e.how = "min_absolute_value" THEN Abs(s[3]) ELSE s[3] : s \in X}
         IN \/ \E k \in DOMAIN e.S : at[k] = "on"
            \/ IF e.r # 10 THEN TRUE
               ELSE IF e.how = "closest_point" THEN IF X = {} THEN e.v[f] = Missing ELSE \E s \in X : Near(e.v[f], s[3], 1)
               ELSE Average(e, X, <<0, 0>>, e.v[f])
AverageOk(e) ==
  IF e.free = 1 THEN FreeOk(e) ELSE
    /\ PlacesOk(e)
    /\ IF e.r # 10 THEN   \* a larger neighbourhood: values stay among those of the samples
            \A i \in DOMAIN e.v : LET V == {IF e.how = "min_absolute_value" THEN Abs(s[3]) ELSE s[3] : s \in Set(e.S)}
                                  IN e.v[i] = Missing \/ (V # {} /\ 100 * MinOf(V) - 1 <= e.v[i] /\ e.v[i] <= 100 * MaxOf(V) + 1)
       ELSE IF e.loc = "edges" THEN
            \A x \in DOMAIN e.e :
                 LET a == Around(e, "nodes", e.e[x][1])
                     b == Around(e, "nodes", e.e[x][2])
                 IN CASE e.how = "simple_averaging" ->
                           IF Cardinality(a) < e.few \/ Cardinality(b) < e.few THEN e.v[x] = Missing
                           ELSE EdgeMean((100 * Total(a)) \div Cardinality(a), (100 * Total(b)) \div Cardinality(b), e.v[x])
                      [] e.how \in {"max", "min", "min_absolute_value"} ->
                           LET of(X) == IF X = {} THEN Missing ELSE LET V == {s[3] : s \in X} IN
                                          100 * (IF e.how = "max" THEN MaxOf(V) ELSE IF e.how = "min" THEN MinOf(V) ELSE MinOf({Abs(y) : y \in V}))
                           IN EdgeMean(of(a), of(b), e.v[x])
                      [] e.how = "closest_point" ->
                           IF a = {} \/ b = {} THEN e.v[x] = Missing
                           ELSE \E s \in a, t \in b : /\ \A u \in a : Dist2(P2(s), e.n[e.e[x][1]]) <= Dist2(P2(u), e.n[e.e[x][1]])
                                                      /\ \A u \in b : Dist2(P2(t), e.n[e.e[x][2]]) <= Dist2(P2(u), e.n[e.e[x][2]])
                                                      /\ EdgeMean(100 * s[3], 100 * t[3], e.v[x])
                      [] OTHER -> (a = {} \/ b = {}) => e.v[x] = Missing
       ELSE \A i \in DOMAIN e.v : Average(e, Around(e, e.loc, i), e.at[i], e.v[i])
TriangulateOk(e) ==
    LET all == Triples(e.S)
        del == DelaunayTriples(e.S)
    IN PlacesOk(e) /\ \A i \in DOMAIN e.v : Interpolated(e.S, all, del, e.at[i], e.v[i])

Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "average" /\ (e.rc # 0 \/ ~AverageOk(e)) THEN {"value"} ELSE {})
    \cup (IF e.k = "triangulate" /\ (e.rc # 0 \/ ~TriangulateOk(e)) THEN {"value"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) \o " " \o e.loc \o (IF "how" \in DOMAIN e THEN " " \o e.how \o " r " \o ToString(e.r) ELSE "") ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
