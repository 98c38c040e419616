-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The unstructured 2D mesh and its elementary edits.                      *)
(*                                                                         *)
(* A mesh is [n |-> nodes, e |-> edges]; a node is <<x, y>> or Null, an    *)
(* edge <<i, j>> or Null.  Indices (counted from one) are what a user      *)
(* addresses nodes and edges by: deleting leaves a Null behind, nothing is *)
(* renumbered.                                                             *)
(***************************************************************************)
EXTENDS Plane

Null == <<>>
Nodes(M) == {i \in DOMAIN M.n : M.n[i] # Null}
Edges(M) == {e \in DOMAIN M.e : M.e[e] # Null}
Ends(M, e) == {M.e[e][1], M.e[e][2]}
Touching(M, i) == {e \in Edges(M) : M.e[e][1] = i \/ M.e[e][2] = i}
Degree(M, i) == Cardinality(Touching(M, i))
Joining(M, a, b) == {e \in Edges(M) : Ends(M, e) = {a, b}}
Connected(M) == UNION {Ends(M, e) : e \in Edges(M)}

\* what every mesh satisfies
WellFormed(M) == \A e \in Edges(M) : /\ M.e[e][1] \in Nodes(M) /\ M.e[e][2] \in Nodes(M)
                                     /\ M.e[e][1] # M.e[e][2]
NoDoubleEdge(M) == \A e \in Edges(M) : Joining(M, M.e[e][1], M.e[e][2]) = {e}

\* the same mesh, up to isolated nodes, which the library may drop
Same(A, B) == /\ Len(A.n) = Len(B.n) /\ A.e = B.e
              /\ \A i \in DOMAIN A.n : A.n[i] = B.n[i] \/ (i \notin Connected(B) /\ (A.n[i] = Null \/ B.n[i] = Null))
\* the same, when slots that hold nothing may also be missing at the end
Trim(s) == LET k == {i \in DOMAIN s : s[i] # Null} IN IF k = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in k : \A j \in k : j <= i)
SameUpToSlots(A, B) == LET ca == [n |-> Trim([i \in DOMAIN A.n |-> IF i \in Connected(A) THEN A.n[i] ELSE Null]), e |-> Trim(A.e)]
                           cb == [n |-> Trim([i \in DOMAIN B.n |-> IF i \in Connected(B) THEN B.n[i] ELSE Null]), e |-> Trim(B.e)]
                       IN ca = cb

\* without edges that lead to a node that is not there any more
Clean(M) == [M EXCEPT !.e = [e \in DOMAIN M.e |-> IF M.e[e] # Null /\ (M.n[M.e[e][1]] = Null \/ M.n[M.e[e][2]] = Null) THEN Null ELSE M.e[e]]]

Empty == [n |-> <<>>, e |-> <<>>]
InsertNode(M, p) == [M EXCEPT !.n = Append(@, p)]
InsertEdge(M, a, b) == [M EXCEPT !.e = Append(@, <<a, b>>)]
DeleteEdges(M, S) == [M EXCEPT !.e = [e \in DOMAIN M.e |-> IF e \in S THEN Null ELSE M.e[e]]]
DeleteNode(M, i) == [DeleteEdges(M, Touching(M, i)) EXCEPT !.n[i] = Null]
MoveNode(M, i, p) == [M EXCEPT !.n[i] = p]
\* node a disappears into node b: its edges lead to b from now on; the edge between them and edges of b that would be doubled go
MergeTwo(M, a, b) ==
    IF a = b THEN M
    ELSE LET nb == {c \in DOMAIN M.n \ {a, b} : Joining(M, a, c) # {}}
             gone == Joining(M, a, b) \cup UNION {Joining(M, c, b) : c \in nb}
             re == [e \in DOMAIN M.e |-> IF e \in gone \/ M.e[e] = Null THEN Null
                                         ELSE <<IF M.e[e][1] = a THEN b ELSE M.e[e][1], IF M.e[e][2] = a THEN b ELSE M.e[e][2]>>]
         IN [n |-> [M.n EXCEPT ![a] = Null], e |-> re]
Hanging(M) == {e \in Edges(M) : Degree(M, M.e[e][1]) = 1 \/ Degree(M, M.e[e][2]) = 1}
Map(M, f(_)) == [M EXCEPT !.n = [i \in DOMAIN M.n |-> IF M.n[i] = Null THEN Null ELSE f(M.n[i])]]
Translate(M, dx, dy) == Map(M, LAMBDA p : <<p[1] + dx, p[2] + dy>>)
\* counter-clockwise quarter turns about c
Turn(M, c, q) == Map(M, LAMBDA p : LET x == p[1] - c[1] y == p[2] - c[2]
                                   IN CASE q = 0 -> p [] q = 1 -> <<c[1] - y, c[2] + x>>
                                        [] q = 2 -> <<c[1] - x, c[2] - y>> [] OTHER -> <<c[1] + y, c[2] - x>>)
\* only the nodes on a valid edge, and the valid edges, renumbered without gaps
Rank(S, i) == Cardinality({j \in S : j <= i})
Compact(M) ==
    LET keep == {e \in Edges(M) : M.n[M.e[e][1]] # Null /\ M.n[M.e[e][2]] # Null}
        con == UNION {Ends(M, e) : e \in keep}
        nth(S, k) == CHOOSE i \in S : Rank(S, i) = k
    IN [n |-> [k \in 1..Cardinality(con) |-> M.n[nth(con, k)]],
        e |-> [k \in 1..Cardinality(keep) |-> LET d == M.e[nth(keep, k)] IN <<Rank(con, d[1]), Rank(con, d[2])>>]]
Join(A, B) == LET C == Compact(B) m == Len(A.n)
              IN [n |-> A.n \o C.n, e |-> A.e \o [k \in DOMAIN C.e |-> <<C.e[k][1] + m, C.e[k][2] + m>>]]

(***************************************************************************)
(* Cells of the plane drawing.                                             *)
(***************************************************************************)
Dir(M, a, b) == <<M.n[b][1] - M.n[a][1], M.n[b][2] - M.n[a][2]>>
Planar(M) == \A e, f \in Edges(M) : e < f =>
    LET a == M.n[M.e[e][1]] b == M.n[M.e[e][2]] c == M.n[M.e[f][1]] d == M.n[M.e[f][2]]
        common == Ends(M, e) \cap Ends(M, f)
    IN IF common = {} THEN ~Meet(a, b, c, d)
       ELSE Cardinality(common) = 1 /\
            LET p == CHOOSE i \in common : TRUE
                q == CHOOSE i \in Ends(M, e) : i # p
                r == CHOOSE i \in Ends(M, f) : i # p
            IN ~OnSegment(M.n[q], M.n[p], M.n[r]) /\ ~OnSegment(M.n[r], M.n[p], M.n[q])
Neighbours(M, i) == {IF M.e[e][1] = i THEN M.e[e][2] ELSE M.e[e][1] : e \in Touching(M, i)}
\* coming along u -> v, the face on the left continues with the next edge clockwise from v -> u
Turning(M, nb, u, v) ==
    LET d == Dir(M, v, u)
        key(w) == Dir(M, v, w)
        \* w is met before x when turning clockwise from d: counter-clockwise order, backwards
        lower == {w \in nb[v] : Before(key(w), d)}
        pool == IF lower # {} THEN lower ELSE nb[v]
    IN CHOOSE w \in pool : \A x \in pool : x = w \/ Before(key(x), key(w))
\* the nodes of the face to the left of start, up to the return to its first node (at most k more steps)
RECURSIVE Trace(_, _, _, _, _)
Trace(M, nb, start, path, k) ==
    LET u == path[Len(path) - 1] v == path[Len(path)]
    IN IF v = start[1] THEN SubSeq(path, 1, Len(path) - 1)
       ELSE IF k = 0 THEN <<>> ELSE Trace(M, nb, start, Append(path, Turning(M, nb, u, v)), k - 1)
\* ... and it closes: the walk would go on along start
Closes(M, nb, c) == Turning(M, nb, c[Len(c)], c[1]) = c[2]
Rotated(c) == LET n == Len(c) m == CHOOSE i \in 1..n : \A j \in 1..n : c[i] <= c[j]
              IN [i \in 1..n |-> c[((m + i - 2) % n) + 1]]
Distinct(c) == Cardinality({c[i] : i \in DOMAIN c}) = Len(c)
Poly(M, c) == TLCEval([i \in DOMAIN c |-> M.n[c[i]]])
\* every cell with three to six corners, its nodes counter-clockwise, smallest index first; shut: nothing sticks into it
Walks(M, shut) ==
    LET nb == TLCEval([i \in DOMAIN M.n |-> Neighbours(M, i)])
        all == UNION {{<<M.e[e][1], M.e[e][2]>>, <<M.e[e][2], M.e[e][1]>>} : e \in Edges(M)}
        tr == {Trace(M, nb, d, d, 5) : d \in all}
    IN {Rotated(c) : c \in {c \in tr : Len(c) \in 3..6 /\ Distinct(c) /\ Area2(Poly(M, c)) >= 0 /\ (shut => Closes(M, nb, c))}}
Cells(M) == Walks(M, TRUE)
LooseCells(M) == Walks(M, FALSE)
EdgesOf(M, c) == UNION {Joining(M, c[i], c[Nxt(i, Len(c))]) : i \in DOMAIN c}
=============================================================================
