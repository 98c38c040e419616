------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* The exact edits of the curvilinear grid as a transition system, with    *)
(* its undo history.  Checked exhaustively on small grids (GridMC.cfg)     *)
(* and, with Gen = TRUE, run by tlc -simulate to produce edit sequences   *)
(* that harness/fam_grid.py replays (GridGen.cfg).                         *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS MaxN, MaxM, MaxPast, Spare, Gen, Depth
VARIABLES g, past, future, log

vars == <<g, past, future, log>>
Size == 24
Start == {[n \in 1..a |-> [m \in 1..b |-> <<Size * n, Size * m>>]] : a \in 2..3, b \in 2..3}
Init == g \in Start /\ past = <<>> /\ future = <<>> /\ log = IF Gen THEN <<<<"set", NumN(g), NumM(g), 0, 0, 0>>>> ELSE <<>>
Note(a) == log' = IF Gen THEN Append(log, a) ELSE log
FacePts(h) == {{Node(h, x) : x \in Corners(f)} : f \in Faces(h)}
\* inserting or mirroring keeps every face there was, taking away adds none
Monotone(a, h) == /\ a \in {"insert", "mirror"} => FacePts(g) \subseteq FacePts(h)
                  /\ a \in {"delnode", "interior", "exterior"} => FacePts(h) \subseteq FacePts(g)
Fits(h) == \A x \in ValidNodes(h) : \A k \in 1..2 : Node(h, x)[k] >= (1 - Spare) * Size /\ Node(h, x)[k] <= (3 + Spare) * Size
Act(a, h) == /\ NumN(h) <= MaxN /\ NumM(h) <= MaxM /\ Faces(h) # {} /\ Fits(h)
             /\ Assert(Monotone(a[1], h), <<"not monotone", a, g, h>>)
             /\ g' = h /\ future' = <<>> /\ Note(a)
             /\ past' = IF MaxPast = 0 THEN <<>> ELSE IF Len(past) < MaxPast THEN Append(past, g) ELSE Append(Tail(past), g)
Border == {e \in ValidEdges(g) : Cardinality(FacesAt(g, e)) = 1}
Room(e) == LET s == SideOf(g, e) IN \A y \in {e[1], e[2]} : (IF Out(y, s) \in Idx(g) THEN Node(g, Out(y, s)) = Null ELSE TRUE)
Whole == ValidNodes(g) = Idx(g)

DelNode == \E x \in ValidNodes(g) : Act(<<"delnode", x[1], x[2], 0, 0, 0>>, Prune(Erase(g, {x})))
Insert == \E e \in Border : Room(e) /\ Act(<<"insert", e[1][1], e[1][2], e[2][1], e[2][2], 0>>, Grow(Prune(g), {e[1], e[2]}, SideOf(g, e), 1))
Mirror == Whole /\ \E x, y \in Idx(g) : \E f \in 1..2 :
            /\ x # y /\ x = Lo(x, y) /\ (x[1] = y[1] \/ x[2] = y[2])
            /\ LET along == x[1] = y[1]
               IN /\ IF along THEN x[1] \in {1, NumN(g)} ELSE x[2] \in {1, NumM(g)}
                  /\ Act(<<"mirror", x[1], x[2], y[1], y[2], f>>,
                         Grow(g, {z \in Idx(g) : Inside(z, x, y)}, IF along THEN (IF x[1] = 1 THEN "n-" ELSE "n+") ELSE (IF x[2] = 1 THEN "m-" ELSE "m+"), f))
Cut == \E x, y \in ValidNodes(g) : x = Lo(x, y) /\ x # y /\ \E k \in {"interior", "exterior"} :
            Act(<<k, x[1], x[2], y[1], y[2], 0>>, Prune(Erase(g, IF k = "interior" THEN Interior(g, x, y) ELSE Exterior(g, x, y))))
DeRefine == \E x, y \in ValidNodes(g) : x = Lo(x, y) /\ x # y /\ LET h == Prune(DeRefined(g, x, y)) IN NumN(h) > 1 /\ NumM(h) > 1 /\ Act(<<"derefine", x[1], x[2], y[1], y[2], 0>>, h)
Undo == past # <<>> /\ g' = past[Len(past)] /\ past' = SubSeq(past, 1, Len(past) - 1) /\ future' = Append(future, g) /\ Note(<<"undo", 0, 0, 0, 0, 0>>)
Redo == future # <<>> /\ g' = future[Len(future)] /\ future' = SubSeq(future, 1, Len(future) - 1) /\ past' = Append(past, g) /\ Note(<<"redo", 0, 0, 0, 0, 0>>)
Next == (Gen => Len(log) < Depth) /\ (DelNode \/ Insert \/ Mirror \/ Cut \/ DeRefine \/ Undo \/ Redo)
Spec == Init /\ [][Next]_vars

\* all rows have the same length; every node lies on a face
Rectangular == \A n \in 1..NumN(g) : Len(g[n]) = NumM(g)
NoDangling == ValidNodes(g) \subseteq OnFaces(g)
Pruned == Prune(g) = g /\ Same(g, g)
\* an edge has at most two faces; a node at most four
Degrees == /\ \A e \in ValidEdges(g) : Cardinality(FacesAt(g, e)) \in 0..2
           /\ \A x \in ValidNodes(g) : Cardinality({f \in Faces(g) : x \in Corners(f)}) \in 1..4
\* de-refining what was refined gives the grid back
Refined(h, f) == [n \in 1..((NumN(h) - 1) * f + 1) |-> [m \in 1..NumM(h) |->
                    LET o == ((n - 1) \div f) + 1 r == (n - 1) % f
                    IN IF r = 0 THEN h[o][m] ELSE IF h[o][m] = Null \/ h[o + 1][m] = Null THEN Null
                       ELSE <<h[o][m][1] + (r * (h[o + 1][m][1] - h[o][m][1])) \div f, h[o][m][2] + (r * (h[o + 1][m][2] - h[o][m][2])) \div f>>]]
RefineIsExact == (NumN(g) = 2 /\ Affine(g) /\ ValidNodes(g) = Idx(g)) =>
    \A f \in {2, 3} : /\ IsRefined(g, Refined(g, f), 1, 2, f, 1, 1, 1)
                      /\ Same(DeRefined(Refined(g, f), <<1, 1>>, <<f + 1, 1>>), g)
Emit == (Gen /\ Len(log) = Depth) => PrintT("SCHED " \o ToJson(log))
=============================================================================
